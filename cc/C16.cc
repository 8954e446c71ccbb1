// C16: the fast math functions over the floats of their domains.
#include "mc.hpp"
#include <iostream>
#include <mutex>
#include <distributions/special.hpp>
using namespace mc;
using namespace distributions;
static float f_of(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static uint32_t b_of(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
// all floats from lo to hi (bit patterns of positive floats, or of negative ones),
// or in the quick tier: one at a changing place in every `step`, every power of two
// and half way between them with `near` floats around, and both ends
template<class F> void sweep(uint32_t lo, uint32_t hi, uint32_t step, F f, int slice = 0, int slices = 1) {
    const uint64_t n = (uint64_t)hi - lo + 1, a = lo + n * slice / slices, b = lo + n * (slice + 1) / slices;
#ifdef FEW
    step = 1 << 16;
#else
    if (thorough()) step = 1;
#endif
    long long done = 0;
    uint32_t k = 0;
    for (uint64_t x = a; x < b; x += step, ++k) { f(f_of(x + (step > 1 ? (k * 2654435761u >> 8) % std::min<uint64_t>(step, b - x) : 0))); if (++done == 65536) { eval(done); transition(done); done = 0; } }
    eval(done); transition(done);
    const int near = 600;
    for (uint64_t e = a & ~0x3fffffull; e <= b + 0x400000; e += 0x400000)
        for (int64_t x = (int64_t)e - near; x <= (int64_t)e + near; ++x) if (x >= (int64_t)a && x < (int64_t)b) { f(f_of((uint32_t)x)); ++done; }
    for (uint64_t x = a; x < b && x < a + near; ++x) f(f_of(x));
    for (uint64_t x = b; x-- > a && x + near > b; ) f(f_of(x));
    eval(done); transition(done); trace_done(); state(done);
}
static double lg(double x) { return std::lgamma(x); }
static int binade(float x) { return (int)(b_of(x) >> 23) - 127; }
struct Worst {   // by binade
    std::map<int, std::pair<double, float>> w;
    void see(float x, double err) { if (!(err <= 1e300)) err = 1e300; auto & e = w[binade(x)]; if (err > e.first || !e.second) e = {err, x}; }
};
// largest errors seen, per binade, must stay below bound(binade)
template<class B> void judge(const char * name, const Worst & w, B bound) {
    for (auto & e : w.w) {
        extra_max(MC_S(name << "_error"), e.second.first);
        if (getenv("C16_TABLE")) printf("%s %d %g %g\n", name, e.first, (double)e.second.first, bound(e.first));
        if (!(e.second.first <= bound(e.first))) violation(name, MC_S(name << " at " << e.second.second << " (bits " << b_of(e.second.second) << ") is off by " << e.second.first << ", bound for binade " << e.first << " is " << bound(e.first)));
    }
}
static void job_log(int i, int n) {
    Worst w;
    float last = -1e9f;
    long falls = 0;
    sweep(0x00800000u, 0x7f7fffffu, 512, [&](float x) { w.see(x, std::fabs((double)fast_log(x) - std::log((double)x))); }, i, n);
    // within a binade and across binades the logarithm never falls
    sweep(0x00800000u, 0x7f7fffffu, 512, [&](float x) { (void)x; }, n - 1, n * 64);
    for (uint64_t b = 0x00800000u + (uint64_t)i * (0x7f000000u / n), e = b + 0x7f000000u / n; b < e; b += 128) { float y = fast_log(f_of(b)); if (y < last && !falls++) violation("fast_log-order", MC_S("fast_log falls at " << f_of(b))); last = y; transition(); }
    judge("fast_log", w, [](int) { return 8e-5; });
    if (i == 0) {
        eval();
        if (!(fast_log(1.f) == 0.f)) violation("fast_log", "log of 1 is not 0");
        for (uint32_t b = 0; b < 0x00800000u; b += 97) { float y = fast_log(f_of(b)); if (!finite(y) || y > -87.f) violation("fast_log-tiny", MC_S("fast_log(" << f_of(b) << ") is " << y)); transition(); }
    }
}
static void job_exp(int i, int n) {
    Worst w;
    auto f = [&](float x) { double want = std::exp((double)x); double got = fast_exp(x); if (x < -87.3f) { if (!(got >= 0 && got < 1.3e-38)) w.see(x, 1); } else w.see(x, std::fabs(got / want - 1)); };
    sweep(0x00000000u, b_of(88.f), 512, f, i, n);
    sweep(0x80000000u, b_of(-88.f), 512, f, i, n);
    judge("fast_exp", w, [](int) { return 8e-6; });
    if (i == 0) {
        // out of range: nothing below, the largest value above, and no surprises in between
        Worst lo;
        sweep(b_of(-88.f) + 1, 0xff7fffffu, 4096, [&](float x) { if (fast_exp(x) != 0) lo.see(x, 1); });
        judge("fast_exp-below", lo, [](int) { return 0.; });
        Worst hi;
        const float top = fast_exp(88.f);
        sweep(b_of(88.f), 0x7f7fffffu, 4096, [&](float x) { if (!(fast_exp(x) >= top * .9999f)) hi.see(x, 1); });
        judge("fast_exp-above", hi, [](int) { return 0.; });
        if (fast_exp(-INFINITY) != 0 || !(fast_exp(INFINITY) >= top)) violation("fast_exp-inf", "exp of an infinity");
        if (fast_exp(0.f) != 1.f) violation("fast_exp", "exp of 0 is not 1");
    }
}
// twice the errors of the published approximation, in the checked and in the fast-math build
static double lgamma_bound(int c) { return c < 1 ? 0 : 7.5e-6 * std::ldexp(2.0, c) + 4e-6; }
static void job_lgamma(int i, int n) {
    Worst w, small;
    sweep(0x00800000u, b_of(2.5f) - 1, 4096, [&](float x) { double want = lg(x); small.see(x, std::fabs(fast_lgamma(x) - want) / (1 + std::fabs(want))); }, i, n);
    judge("fast_lgamma-small", small, [](int) { return 3e-7; });
    sweep(b_of(2.5f), b_of(4294967040.f), 512, [&](float x) { w.see(x, std::fabs((double)fast_lgamma(x) - lg(x))); }, i, n);
    judge("fast_lgamma", w, lgamma_bound);
    if (i == 0) {
        Worst big;
        sweep(b_of(4294967295.f), b_of(1e36f), 65536, [&](float x) { double want = lg(x); big.see(x, std::fabs(fast_lgamma(x) / want - 1)); });
        judge("fast_lgamma-large", big, [](int) { return 3e-7; });
        // no jumps: neighbours differ by no more than the slope and the table's accuracy allow
        for (uint32_t e = 128; e < 160; ++e) {
            const uint32_t b = e << 23;
            for (uint32_t k = b - 50; k < b + 50; ++k) {
                const float x = f_of(k), y = f_of(k + 1);
                double jump = std::fabs(((double)fast_lgamma(y) - fast_lgamma(x)) - (lg(y) - lg(x)));
                eval(); transition(2);
                if (x >= 2.5f && jump > 2 * lgamma_bound(e - 127)) violation("fast_lgamma-jump", MC_S("fast_lgamma jumps by " << jump << " at " << x));
            }
        }
    }
}
static double lgamma_nu_bound(int c) {
    static const double low[] = {.018, .0105, .018, .0105, .016, .009, .0125, .007, .0105};
    return c < 5 ? low[c + 4] : c % 2 ? .0056 : .0098;
}
static void job_lgamma_nu(int i, int n) {
    auto want = [](double nu) { return nu > 1e7 ? .5 * std::log(nu / 2) - .25 / nu : lg(nu / 2 + .5) - lg(nu / 2); };
    Worst w, small;
    sweep(b_of(.0625f), b_of(4294967040.f), 1024, [&](float x) { w.see(x, std::fabs(fast_lgamma_nu(x) - want(x))); }, i, n);
    judge("fast_lgamma_nu", w, lgamma_nu_bound);
    sweep(0x01000000u, b_of(.0625f) - 1, 8192, [&](float x) { double v = want(x); small.see(x, std::fabs(fast_lgamma_nu(x) - v) / (1 + std::fabs(v))); }, i, n);
    judge("fast_lgamma_nu-small", small, [](int) { return 3e-6; });
}
static void job_factorial() {
    double exact = 0;
    const uint32_t top = thorough() ? 1u << 24 : 1u << 20;
    for (uint32_t n = 0; n < top; ++n) {
        if (n > 1) exact = n < 4096 ? exact + std::log((double)n) : lg(n + 1.0);
        double tol = n < 64 ? 1e-6 * (1 + exact) : lgamma_bound(binade(n + 1.f));
        double e = std::fabs(fast_log_factorial(n) - exact);
        extra_max("log_factorial_error_over_bound", e / tol);
        if (!(e <= tol)) violation("fast_log_factorial", MC_S("log " << n << "! = " << fast_log_factorial(n) << ", expected " << exact));
        eval(); transition();
    }
    for (uint64_t n = 1; n <= 0xffffffffull; n = n + n / 999 + 1) for (uint64_t m : {(uint64_t)n, (uint64_t)(0xffffffffull - n + 1)}) {
        double want = lg(m + 1.0), tol = m < 64 ? 1e-5 * (1 + want) : lgamma_bound(binade(m + 1.f)) + 2e-7 * want;
        eval(); transition();
        if (!(std::fabs(fast_log_factorial((uint32_t)m) - want) <= tol)) violation("fast_log_factorial", MC_S("log " << m << "! = " << fast_log_factorial((uint32_t)m) << ", expected " << want));
    }
    trace_done(); state(top);
}
static void job_combined() {
    std::vector<float> xs;
    for (float x : {1e-3f, .01f, .1f, .5f, 1.f, 1.5f, 2.f, 2.499f, 2.5f, 3.f, 4.f, 7.9f, 8.f, 31.f, 32.f, 100.f, 1000.f, 65535.f, 65536.f, 1e6f}) xs.push_back(x);
    auto err = [](double x) { return x < 2.5 ? 2e-6 * (1 + std::fabs(lg(x))) : lgamma_bound(binade(x)) + 3e-7 * lg(x); };
    for (float a : xs) for (float b : xs) {
        double want = lg(a) + lg(b) - lg((double)a + b), tol = err(a) + err(b) + err((double)a + b) + 2e-7 * lg((double)a + b + 3);
        eval(); transition(6); state();
        if (!close(fast_log_beta(a, b), want, tol)) violation("fast_log_beta", MC_S("fast_log_beta(" << a << ", " << b << ") = " << fast_log_beta(a, b) << ", expected " << want));
        if (!close(log_beta(a, b), want, 4e-7 * (std::fabs(lg(a)) + std::fabs(lg(b)) + std::fabs(lg((double)a + b)) + 1))) violation("log_beta", MC_S("log_beta(" << a << ", " << b << ") = " << log_beta(a, b) << ", expected " << want));
        double x = std::log((double)a), y = -std::log((double)b), lse = std::max(x, y) + std::log1p(std::exp(-std::fabs(x - y)));
        if (!close(fast_log_sum_exp(x, y), lse, 2e-4)) violation("fast_log_sum_exp", MC_S(x << ", " << y << " gives " << fast_log_sum_exp(x, y) << ", expected " << lse));
        if (!close(distributions::log_sum_exp((float)x, (float)y), lse, 1e-5)) violation("log_sum_exp", MC_S(x << ", " << y));
        if (a >= 1 && a == std::floor(a)) for (double N : {(double)a, a + 1., 2. * a, a + 77.}) {
            double k = a, w = lg(N + 1) - lg(k + 1) - lg(N - k + 1), t = err(N + 1) + err(k + 1) + err(N - k + 1) + 4e-7 * lg(N + 3);
            if (!close(fast_log_binom(N, k), w, t)) violation("fast_log_binom", MC_S("fast_log_binom(" << N << ", " << k << ") = " << fast_log_binom(N, k) << ", expected " << w));
            if (!close(log_binom(N, k), w, 6e-7 * (lg(N + 1) + 1))) violation("log_binom", MC_S("log_binom(" << N << ", " << k << ") = " << log_binom(N, k) << ", expected " << w));
            eval(2);
        }
    }
    for (float z : {0.f, -1.f}) for (float b : {z, 2.f}) { eval(); float inf = fast_log_beta(z, b), inf2 = log_beta(b, z); if (!(inf < -3e38f) || !(inf2 < -3e38f)) violation("log_beta-domain", "log_beta outside its domain is not -infinity"); }
    for (unsigned d = 1; d <= 12; ++d) for (float a : xs) if (a > (d - 1) * .5f + .01f) {
        double want = .25 * d * (d - 1) * std::log(M_PI), tol = 1e-5 * (1 + want);
        for (unsigned j = 1; j <= d; ++j) { double x = a + .5 * (1 - (int)j); want += lg(x); tol += err(x) + 1e-6 * std::fabs(lg(x)); }
        eval(); transition(); state();
        if (!close(lmultigamma(d, a), want, tol)) violation("lmultigamma", MC_S("lmultigamma(" << d << ", " << a << ") = " << lmultigamma(d, a) << ", expected " << want));
    }
    trace_done();
}
int main(int argc, char ** argv) {
    Jobs jobs;
    const int N = 8;
    for (int i = 0; i < N; ++i) {
        jobs.push_back({MC_S("log/" << i), [=] { job_log(i, N); }});
        jobs.push_back({MC_S("exp/" << i), [=] { job_exp(i, N); }});
        jobs.push_back({MC_S("lgamma/" << i), [=] { job_lgamma(i, N); }});
        jobs.push_back({MC_S("lgamma_nu/" << i), [=] { job_lgamma_nu(i, N); }});
    }
    jobs.push_back({"factorial", job_factorial});
    jobs.push_back({"combined", job_combined});
    return main_(argc, argv, jobs);
}
