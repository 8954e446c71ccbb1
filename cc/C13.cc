// C13: discrete sampling returns each outcome with its stated probability.
#include "states.hpp"
#include <distributions/aligned_allocator.hpp>
#include <distributions/vector.hpp>
using namespace mc;
static std::string show(const float * v, size_t n) { std::string s = "["; for (size_t i = 0; i < n; ++i) s += MC_S((i ? "," : "") << v[i]); return s + "]"; }
static int points(bool small) { return thorough() ? (small ? 1024 : 8192) : (small ? 256 : 2048); }

static void judge(const char * what, const vector<float> & in, const vector<double> & p, const std::map<long, double> & m, double rel, double abs_tol) {
    eval(); trace_done();
    std::string arg = show(in.data(), std::min<size_t>(in.size(), 12));
    if (in.size() > 12) arg += MC_S("... (" << in.size() << ")");
    for (auto & o : m) if (o.first < 0 || o.first >= (long)p.size()) { violation(MC_S(what << "-range"), MC_S(what << arg << " returns " << o.first)); return; }
    for (size_t i = 0; i < p.size(); ++i) {
        auto it = m.find(i);
        double got = it == m.end() ? 0 : it->second;
        if (p[i] == 0 && got > 0) violation(MC_S(what << "-impossible"), MC_S(what << arg << " returns outcome " << i << " of probability zero for a fraction " << got << " of the states"));
        else if (!close(got, p[i], abs_tol, rel)) violation(MC_S(what << "-frequency"), MC_S(what << arg << " returns outcome " << i << " for a fraction " << got << " of the states, its probability is " << p[i]));
    }
}
template<class F> std::map<long, double> outcomes(F f, bool small) {
    return measure([&](uint64_t x) { rng_t r = rng_with_next(x); transition(); return (long)f(r); }, points(small));
}
static vector<double> norm(const vector<float> & v) { double t = 0; for (float x : v) t += x; vector<double> p; for (float x : v) p.push_back(x / t); return p; }
static vector<double> softmax(const vector<float> & v) {
    double m = -1e300, t = 0; for (float x : v) m = std::max(m, (double)x);
    vector<double> p;
    for (float x : v) { p.push_back(std::exp(x - m)); t += p.back(); }
    for (auto & x : p) x /= t;
    return p;
}
static double min_step(size_t n) { return 2e-9 + 1.5e-7 * (n + 2); }   // float accumulation over n terms

static void check_likelihoods(const vector<float> & v, bool small) {
    state();
    auto p = norm(v);
    double tol = min_step(v.size());
    judge("sample_from_likelihoods", v, p, outcomes([&](rng_t & r) { return sample_from_likelihoods(r, v); }, small), 0, tol);
    float total = 0; for (float x : v) total += x;
    VectorFloat a(v.size()); std::copy(v.begin(), v.end(), a.begin());
    judge("sample_from_likelihoods(aligned,total)", v, p, outcomes([&](rng_t & r) { return sample_from_likelihoods(r, a, total); }, small), 0, tol);
    vector<float> q;
    for (double x : p) q.push_back(x);
    judge("sample_from_probs", q, p, outcomes([&](rng_t & r) { return sample_from_probs(r, q); }, small), 0, tol);
    judge("sample_discrete", q, p, outcomes([&](rng_t & r) { return sample_discrete(r, q.size(), q.data()); }, small), 0, tol);
}
template<class V> static void check_scores_as(const char * kind, const vector<float> & v, bool small) {
    auto p = softmax(v);
    double tol = min_step(v.size()), rel = 1e-4;
    V s0(v.size()); std::copy(v.begin(), v.end(), s0.begin());
    const V s(s0);
    judge(MC_S("sample_from_scores" << kind).c_str(), v, p, outcomes([&](rng_t & r) { auto i = sample_from_scores(r, s); return i; }, small), rel, tol);
    judge(MC_S("sample_from_scores_overwrite" << kind).c_str(), v, p, outcomes([&](rng_t & r) { V t(s); return sample_from_scores_overwrite(r, t); }, small), rel, tol);
    double worst = 0; long at = -1; float reported = 0;
    judge(MC_S("sample_prob_from_scores_overwrite" << kind).c_str(), v, p, outcomes([&](rng_t & r) {
        V t(s);
        auto o = sample_prob_from_scores_overwrite(r, t);
        if (o.first < p.size()) { double d = std::fabs(o.second - p[o.first]); if (!(d <= worst)) { worst = d; at = o.first; reported = o.second; } }
        return o.first;
    }, true), rel, tol);
    if (!(worst <= 1e-5)) violation("sample_prob", MC_S("sample_prob_from_scores_overwrite" << show(v.data(), std::min<size_t>(v.size(), 12)) << " reports probability " << reported << " for outcome " << at << ", it is " << p[at]));
    for (size_t i = 0; i < v.size(); ++i) {
        V t(s);
        rng_t r(1);
        float score = score_from_scores_overwrite(r, i, t);
        double m = -1e300, sum = 0; for (float x : v) m = std::max(m, (double)x); for (float x : v) sum += std::exp(x - m);
        double want = v[i] - m - std::log(sum);
        eval();
        if (!(score == want) && !close(score, want, 1e-4, 1e-6)) violation("score_from_scores", MC_S("score_from_scores_overwrite(" << i << ", " << show(v.data(), std::min<size_t>(v.size(), 12)) << ") = " << score << ", the log probability is " << want));
    }
    { V t(s); scores_to_probs(t); eval();
      for (size_t i = 0; i < v.size(); ++i) if (!close(t[i], p[i], 1e-6, 1e-4)) violation("scores_to_probs", MC_S("scores_to_probs" << show(v.data(), std::min<size_t>(v.size(), 12)) << " gives " << t[i] << " for outcome " << i << ", its probability is " << p[i])); }
    { V t(s); float total = scores_to_likelihoods(t); double sum = 0; eval();
      for (size_t i = 0; i < v.size(); ++i) sum += t[i];
      for (size_t i = 0; i < v.size(); ++i) if (!close(t[i] / sum, p[i], 1e-6, 1e-4)) violation("scores_to_likelihoods", MC_S("scores_to_likelihoods" << show(v.data(), std::min<size_t>(v.size(), 12)) << " outcome " << i << " has share " << t[i] / sum << ", its probability is " << p[i]));
      if (!close(total, sum, 0, 1e-5)) violation("scores_to_likelihoods", MC_S("returned total " << total << ", likelihoods sum to " << sum)); }
    { double m = -1e300, sum = 0; for (float x : v) m = std::max(m, (double)x); for (float x : v) sum += std::exp(x - m);
      float l = log_sum_exp(s); eval();
      if (!close(l, m + std::log(sum), 2e-4, 2e-7)) violation("log_sum_exp", MC_S("log_sum_exp" << show(v.data(), std::min<size_t>(v.size(), 12)) << " = " << l << ", exact " << m + std::log(sum))); }
}
static void check_scores(const vector<float> & v, bool small) {
    state();
    check_scores_as<vector<float>>("", v, small);
    check_scores_as<VectorFloat>("(aligned)", v, small);
}
// all vectors of a length over an alphabet
static void product(const vector<float> & alphabet, int len, size_t part, size_t parts, const std::function<void(const vector<float> &)> & f) {
    vector<size_t> i(len, 0);
    size_t n = 0;
    for (;;) {
        if (n++ % parts == part) { vector<float> v; for (auto k : i) v.push_back(alphabet[k]); f(v); }
        int j = 0;
        while (j < len && ++i[j] == alphabet.size()) i[j++] = 0;
        if (j == len) return;
    }
}
static void likelihoods(size_t part, size_t parts) {
    vector<float> al{0, .25f, 1, 1e-3f, 7, 1e-20f, 1e6f};
    for (int len = 1; len <= 4; ++len)
        product(al, len, part, parts, [&](const vector<float> & v) { for (float x : v) if (x > 0) { check_likelihoods(v, true); break; } });
}
static void scores(size_t part, size_t parts) {
    vector<float> al{-std::numeric_limits<float>::infinity(), -1, 0, 2.5f, -20, 90, -1000, -11.5f};
    for (int len = 1; len <= (thorough() ? 5 : 4); ++len)
        for (float shift : {0.f, 1e4f, -1e4f, -1e30f}) {
            product(al, len, part, parts, [&](const vector<float> & v) {
                bool any = false;
                vector<float> w;
                for (float x : v) { any = any || x > -1e6f; w.push_back(x + shift); }
                if (any && (shift == 0 || len == 3)) check_scores(w, true);
            });
        }
}
// many outcomes that are each negligible but not together
static void faint() {
    for (int n : {2, 9, 100, 1000, 5000}) for (float gap : {6.f, 9.f, 10.5f, 12.f, 14.f}) for (int at : {0, n / 2, n - 1}) {
        state();
        vector<float> v(n, 3 - gap);
        v[at] = 3;
        auto q = softmax(v);
        VectorFloat a(n);
        std::copy(v.begin(), v.end(), a.begin());
        const vector<double> want{q[at], 1 - q[at]};
        const vector<float> arg{(float)n, gap, (float)at};
        const double tol = min_step(4) + 1e-4 * want[1] + 6e-8 * n;   // float sums of n terms
        judge("sample_from_scores(faint)", arg, want, outcomes([&](rng_t & r) { return sample_from_scores(r, v) != (size_t)at; }, true), 0, tol);
        judge("sample_from_scores_overwrite(faint)", arg, want, outcomes([&](rng_t & r) { VectorFloat t(a); return sample_from_scores_overwrite(r, t) != (size_t)at; }, true), 0, tol);
        judge("sample_prob_from_scores_overwrite(faint)", arg, want, outcomes([&](rng_t & r) { VectorFloat t(a); return sample_prob_from_scores_overwrite(r, t).first != (size_t)at; }, true), 0, tol);
        vector<float> l;
        for (double x : q) l.push_back(x);
        judge("sample_from_likelihoods(faint)", arg, want, outcomes([&](rng_t & r) { return sample_from_likelihoods(r, l) != (size_t)at; }, true), 0, tol);
        judge("sample_discrete(faint)", arg, want, outcomes([&](rng_t & r) { return sample_discrete(r, l.size(), l.data()) != (size_t)at; }, true), 0, tol);
        eval();
        float lse = log_sum_exp(v);
        if (!close(lse, 3 - std::log(q[at]), 1e-4 + 6e-8 * n, 2e-7)) violation("log_sum_exp", MC_S("log_sum_exp of 3 and " << n - 1 << " times " << 3 - gap << " is " << lse << ", exact " << 3 - std::log(q[at])));
        rng_t r(1);
        VectorFloat t(a);
        float score = score_from_scores_overwrite(r, at, t);
        if (!close(score, std::log(q[at]), 1e-4 + 6e-8 * n, 1e-6)) violation("score_from_scores", MC_S("score_from_scores_overwrite of 3 among " << n - 1 << " times " << 3 - gap << " is " << score << ", the log probability is " << std::log(q[at])));
    }
}
static void lengths() {   // every length across the SIMD widths; zeros at every place
    for (int n = 1; n <= (thorough() ? 120 : 70); ++n) {
        vector<float> flat(n, .125f), ramp, gaps, tail(n, 1.f), head(n, 1.f);
        for (int i = 0; i < n; ++i) { ramp.push_back(1 + i % 7); gaps.push_back(i % 3 == 1 ? 2.f : 0.f); }
        gaps[0] = 0; if (n > 1) gaps[1] = 2; else gaps[0] = 1;
        for (int i = 0; i < n / 2; ++i) { tail[n - 1 - i] = 0; head[i] = 0; }
        for (auto & v : {flat, ramp, gaps, tail, head}) check_likelihoods(v, false);
        for (int k = 0; k < n; k += n > 20 ? 5 : 1) { vector<float> one(n, 0.f); one[k] = 3e-3f; check_likelihoods(one, true); }
        vector<float> s1, s2(n, -3.f), s3;
        for (int i = 0; i < n; ++i) { s1.push_back(-.5f * (i % 5)); s3.push_back(-200.f + 10.f * ((i * 7) % n)); }
        for (auto & v : {s1, s2, s3}) check_scores(v, true);
        for (int k = 0; k < n; k += n > 20 ? 5 : 1) { vector<float> one(n, -500.f); one[k] = 3; check_scores(one, true); }
        sample(MC_S("length " << n));
    }
}
static void others() {
    for (float p : {0.f, 1e-6f, .1f, .5f, .9f, 1.f}) {
        vector<double> want{1 - (double)p, p};
        judge("sample_bernoulli", {p}, want, outcomes([&](rng_t & r) { return sample_bernoulli(r, p); }, false), 0, 2e-7);
    }
    for (int n = 1; n <= 40; ++n) {
        vector<double> p(n, 1.0 / n);
        judge("sample_int", {(float)n}, p, outcomes([&](rng_t & r) { return sample_int(r, 5, 4 + n) - 5; }, false), 0, 1e-6);
        vector<int> urn;
        for (int i = 0; i < n; ++i) urn.push_back(100 + i);
        judge("sample_from_urn", {(float)n}, p, outcomes([&](rng_t & r) { return sample_from_urn(r, urn) - 100; }, false), 0, 1e-6);
        if (n >= 2) {   // two draws: counted over a lattice of states
            size_t K = thorough() ? 1 << 22 : 1 << 16;
            std::map<std::pair<int, int>, double> c;
            for (size_t k = 0; k < K; ++k) { rng_t r = rng_with_next(lattice(k, K)); auto o = sample_pair_from_urn(r, urn); c[o] += 1.0 / K; transition(); }
            eval(); trace_done();
            double want = 1.0 / (n * (n - 1.0));
            for (auto & o : c) {
                if (o.first.first == o.first.second) violation("pair-equal", MC_S("sample_pair_from_urn of " << n << " returns the same item twice"));
                if (!close(o.second, want, 6 * std::sqrt(want / K) + 2e-4)) violation("pair-frequency", MC_S("sample_pair_from_urn of " << n << " returns (" << o.first.first - 100 << "," << o.first.second - 100 << ") for a fraction " << o.second << ", should be " << want));
            }
            if ((int)c.size() != n * (n - 1)) violation("pair-missing", MC_S("sample_pair_from_urn of " << n << " returns " << c.size() << " of " << n * (n - 1) << " pairs"));
        }
    }
}
int main(int argc, char ** argv) {
    Jobs jobs;
    if (!rng_as_expected()) { fprintf(stderr, "rng_t is not the generator this check enumerates\n"); return 2; }
    const size_t N = 4;
    for (size_t i = 0; i < N; ++i) jobs.push_back({MC_S("likelihoods/" << i), [=] { likelihoods(i, N); sample("vectors over {0,.25,1,1e-3,7,1e-20,1e6}"); }});
    for (size_t i = 0; i < N; ++i) jobs.push_back({MC_S("scores/" << i), [=] { scores(i, N); sample("score vectors over {-inf,-1,0,2.5,-20,90,-1000}, shifted by 0, 1e4, -1e4"); }});
    jobs.push_back({"lengths", lengths});
    jobs.push_back({"faint", faint});
    jobs.push_back({"others", others});
    return main_(argc, argv, jobs);
}
