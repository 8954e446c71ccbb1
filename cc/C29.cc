// C29: the samplers of random.hpp follow the distributions they are named after,
// and its densities are those distributions' densities.
#include "states.hpp"
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/beta.hpp>
#include <eigen3/Eigen/Dense>
#include <distributions/vector.hpp>
using namespace mc;
typedef std::function<double(double)> Cdf;
static uint64_t step(bool slow) { return thorough() ? (slow ? 4774 : 1386) : (slow ? 31 * 331 : 6138); }
static double gamma_cdf(double a, double x) { return x <= 0 ? 0 : boost::math::gamma_p(a, x); }
static double beta_cdf(double a, double b, double x) { return x <= 0 ? 0 : x >= 1 ? 1 : boost::math::ibeta(a, b, x); }
static double normal_cdf(double z) { return .5 * std::erfc(-z / std::sqrt(2.0)); }

struct Frequencies {   // cells with expected probabilities against counts
    vector<double> want, got;
    double n = 0;
    void judge(const std::string & what) {
        trace_done(); state();
        for (size_t i = 0; i < want.size(); ++i) {
            eval();
            double p = want[i], q = got[i] / n, tol = 7 * std::sqrt(std::max(0.0, p * (1 - p)) / n) + 2e-4 + 8 / n;
            extra_max("largest_frequency_error", std::fabs(p - q));
            if (!close(q, p, tol)) violation("frequency", MC_S(what << ": cell " << i << " of " << want.size() << " is hit in a fraction " << q << " of " << n << " states, its probability is " << p << " (tolerance " << tol << ")"));
        }
    }
};
// Cells equally likely under a continuous law; values outside (lo, hi) are not
// told apart (float has no resolution there).
struct Law {
    std::string name; Cdf cdf; double lo, hi;
    vector<double> edges;   // of u
    Frequencies f;
    Law(const std::string & n, Cdf c, double l = -1e300, double h = 1e300, int N = 24) : name(n), cdf(c), lo(l), hi(h) {
        double a = lo > -1e299 ? cdf(lo) : 0, b = hi < 1e299 ? cdf(hi) : 1;
        edges.push_back(0);
        for (int i = 1; i < N; ++i) { double u = (double)i / N; if (u > a && u < b) { if (edges.size() == 1 && a > 0) edges.push_back(std::max(a, 1e-12)); edges.push_back(u); } }
        if (edges.size() == 1) { if (a > 0 && a < 1) edges.push_back(a); }
        if (b < 1 && b > edges.back()) edges.push_back(b);
        f.got.assign(edges.size(), 0);
        for (size_t i = 0; i < edges.size(); ++i) f.want.push_back((i + 1 < edges.size() ? edges[i + 1] : 1) - edges[i]);
    }
    size_t cell(double u) const { return std::upper_bound(edges.begin(), edges.end(), u) - edges.begin() - 1; }
    void put(double x) {
        f.n += 1;
        if (!mc::finite(x)) { violation("not-finite", name + " returns a value that is not finite"); return; }
        double u = x <= lo ? 0 : x >= hi ? 1 : cdf(x);
        f.got[cell(std::min(std::max(u, 0.0), 1 - 1e-15))] += 1;
    }
    void done() { f.judge(name); }
};
// one sampler: the law of a draw, and that the next draw is independent of it
template<class S> void continuous(const std::string & name, S sample, Cdf cdf, double lo = -1e300, double hi = 1e300) {
    Context c(name);
    Law first(name, cdf, lo, hi), second(name + ", second draw", cdf, lo, hi);
    const int Q = 4;
    Frequencies pair;
    Law quart(name, cdf, lo, hi, Q);
    const size_t q = quart.edges.size();
    for (size_t i = 0; i < q; ++i) for (size_t j = 0; j < q; ++j) pair.want.push_back(quart.f.want[i] * quart.f.want[j]);
    pair.got.assign(q * q, 0);
    auto u = [&](double x) { return quart.cell(std::min(std::max(x <= lo ? 0 : x >= hi ? 1 : cdf(x), 0.0), 1 - 1e-15)); };
    orbit(step(false), [&](rng_t r) {
        transition(2);
        double x = sample(r), y = sample(r);
        first.put(x); second.put(y);
        pair.got[u(x) * q + u(y)] += 1; pair.n += 1;
    });
    first.done(); second.done(); pair.judge(name + ", two draws in a row");
}
// values start, start+1, ... with their probabilities, summed into cells
template<class S> void discrete(const std::string & name, S sample, std::function<double(double)> pmf, double start, double low = 0, int64_t largest = 2147483647) {
    Context c(name);
    Frequencies f;
    vector<double> ends;
    double w = 0, total = 0;
    f.want.push_back(low);   // below start
    for (double x = start; total + low < .998 && x <= largest && x < start + 4e6; ++x) { double p = pmf(x); w += p; total += p; if (w > .01) { f.want.push_back(w); ends.push_back(x); w = 0; } }
    f.want.push_back(1 - [&] { double t = 0; for (double x : f.want) t += x; return t; }());
    f.got.assign(f.want.size(), 0);
    bool bad = false;
    orbit(step(false), [&](rng_t r) {
        transition();
        const int64_t x = sample(r);
        f.n += 1;
        if (x < 0) { if (!bad) violation("domain", MC_S(name << " returns " << x)); bad = true; return; }
        f.got[x < start ? 0 : 1 + (std::lower_bound(ends.begin(), ends.end(), (double)x) - ends.begin())] += 1;
    });
    f.judge(name);
}
static void simple() {
    continuous("sample_unif01", [](rng_t & r) { return sample_unif01(r); }, [](double x) { return x; });
    continuous("sample_std_normal", [](rng_t & r) { return sample_std_normal(r); }, normal_cdf);
    for (float m : {-3.f, 0.f, 100.f}) for (float v : {1e-2f, 1.f, 2.5f, 1e6f})
        continuous(MC_S("sample_normal(" << m << "," << v << ")"), [=](rng_t & r) { return sample_normal(r, m, v); }, [=](double x) { return normal_cdf((x - m) / std::sqrt((double)v)); });
    for (auto p : vector<std::pair<int, int>>{{0, 0}, {-3, 9}, {0, 999}, {-2147483647 - 1, 2147483647}, {5, 2147483647}, {-100000, 100000}}) {
        const double lo = p.first, hi = p.second, n = hi - lo + 1;
        Context c(MC_S("sample_int(" << p.first << "," << p.second << ")"));
        Frequencies f;
        const int N = std::min(n, 16.0);
        for (int i = 0; i < N; ++i) f.want.push_back((std::floor(n * (i + 1) / N) - std::floor(n * i / N)) / n);
        f.got.assign(N, 0);
        bool bad = false;
        orbit(step(false), [&](rng_t r) {
            transition();
            const double x = sample_int(r, p.first, p.second);
            f.n += 1;
            if (x < lo || x > hi) { if (!bad) violation("domain", MC_S("sample_int(" << lo << "," << hi << ") returns " << x)); bad = true; return; }
            int k = (x - lo) / n * N;
            while (k + 1 < N && x - lo >= std::floor(n * (k + 1) / N)) ++k;
            while (k > 0 && x - lo < std::floor(n * k / N)) --k;
            f.got[k] += 1;
        });
        f.judge(MC_S("sample_int(" << p.first << "," << p.second << ")"));
    }
    for (float p : {0.f, 1e-3f, .3f, .5f, .75f, 1.f}) discrete(MC_S("sample_bernoulli(" << p << ")"), [=](rng_t & r) { return (int)sample_bernoulli(r, p); }, [=](double x) { return x == 0 ? 1 - (double)p : x == 1 ? (double)p : 0.0; }, 0, 0, 1);
}
static void gammas(int part) {
    int at = 0;
    for (float a : {1e-3f, .01f, .04f, .3f, .5f, .99f, 1.f, 1.01f, 2.5f, 20.f, 1000.f, 1e5f}) {
        if (at++ % 4 != part) continue;
        for (float b : {1.f, .01f, 5000.f}) continuous(MC_S("sample_gamma(" << a << "," << b << ")"), [=](rng_t & r) { return sample_gamma(r, a, b); }, [=](double x) { return gamma_cdf(a, x / b); }, 2e-38);
        continuous(MC_S("sample_gamma(" << a << ")"), [=](rng_t & r) { return sample_gamma(r, a); }, [=](double x) { return gamma_cdf(a, x); }, 2e-38);
    }
    if (part == 0) for (float nu : {.01f, .5f, 1.f, 2.f, 3.7f, 30.f, 1003.7f, 5001.3f}) continuous(MC_S("sample_chisq(" << nu << ")"), [=](rng_t & r) { return sample_chisq(r, nu); }, [=](double x) { return gamma_cdf(.5 * nu, .5 * x); }, 2e-38);
}
static void counts() {
    for (float m : {1e-3f, .1f, 1.f, 3.5f, 11.9f, 12.f, 40.f, 1000.f, 4096.f, 4097.f, 30000.f, 2e6f}) {
        double sd = std::sqrt((double)m), from = std::max(0.0, std::floor(m - 6 * sd));
        if (m < 100) from = 0;
        discrete(MC_S("sample_poisson(" << m << ")"), [=](rng_t & r) { return sample_poisson(r, m); }, [=](double x) { return std::exp(x * std::log((double)m) - m - std::lgamma(x + 1)); }, from);
    }
    for (float p : {.001f, .05f, .3f, .5f, .9f, .999f}) for (int k : {1, 2, 7, 60, 1000})
        discrete(MC_S("sample_negative_binomial(" << p << "," << k << ")"), [=](rng_t & r) { return sample_negative_binomial(r, p, k); },
            [=](double x) { return std::exp(std::lgamma(k + x) - std::lgamma(k) - std::lgamma(x + 1) + k * std::log((double)p) + x * std::log1p(-(double)p)); }, 0);
}
static void betas(int part) {
    const vector<float> al{.001f, .02f, .5f, 1.f, 3.f, 250.f};
    for (size_t i = 0; i < al.size(); ++i) for (float b : al) {
        if ((int)i != part) continue;
        const float a = al[i];
        const Cdf cdf = [=](double x) { return beta_cdf(a, b, x); };
        // gammas below float's range are replaced by a corner: only the side is told
        const bool tiny = a + b < .1f;
        continuous(MC_S("sample_beta(" << a << "," << b << ")"), [=](rng_t & r) { return sample_beta(r, a, b); }, cdf, tiny ? .5 : 1e-30, tiny ? .5 : 1 - 1e-6);
        for (float m : {0.f, 1e-3f, .5f})
            continuous(MC_S("sample_beta_safe(" << a << "," << b << "," << m << ")"), [=](rng_t & r) { float p = sample_beta_safe(r, a, b, m); if (!(p >= m / (1 + m) - 1e-6 && p <= 1 + 1e-6)) violation("domain", MC_S("sample_beta_safe(" << a << "," << b << "," << m << ") returns " << p)); return p; },
                [=](double x) { return cdf(x * (1 + m) - m); }, tiny ? .5 : m == 0 ? 1e-30 : m / (1 + m) + 1e-6, tiny ? .5 : 1 - 1e-6);
    }
}
static void dirichlets() {
    for (auto & a : vector<vector<float>>{{1}, {.5f, .5f}, {2, 0, 3}, {.05f, 1, 4}, {1e-3f, 2e-3f, 4e-3f}, {100, 1, 30, 2}, {.3f, .3f, .3f, .3f, .3f, .3f, .3f}, vector<float>(40, .2f)}) for (float m : {-1.f, 0.f, .02f}) {   // m < 0: the plain sampler
        const size_t n = a.size();
        bool zero = false;
        vector<double> e;
        double A = 0;
        for (float x : a) { zero = zero || x == 0; e.push_back(m > 0 ? x + m : x); A += e.back(); }
        if (m == 0 && zero) continue;
        const bool tiny = A < .1;
        const std::string name = MC_S((m < 0 ? "sample_dirichlet" : "sample_dirichlet_safe") << " of " << n << " from " << a[0] << (m > 0 ? MC_S(", " << m) : ""));
        Context c(name);
        // p = (q + m) / (1 + n m), q Dirichlet: every share, and sums of shares, are betas
        const double mm = std::max(0.f, m);
        vector<Law> laws;
        vector<std::pair<size_t, size_t>> of;
        for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n && j < i + 3; ++j) {
            if (i > 4 && i + 4 < n) continue;
            double s = e[i] + (j == i ? 0 : e[j]);
            if (s == 0 || s >= A * (1 - 1e-9)) continue;
            of.push_back({i, j});
            laws.emplace_back(MC_S(name << ", share of " << i << (j == i ? "" : MC_S(" and " << j))), [=](double x) { return beta_cdf(s, A - s, x); }, tiny ? .5 : mm > 0 ? 2e-5 : 1e-30, tiny ? .5 : 1 - 2e-5);
        }
        orbit(step(n > 10), [&](rng_t r) {
            transition();
            vector<float> p(n, -1.f);
            if (m < 0) sample_dirichlet(r, n, a.data(), p.data()); else sample_dirichlet_safe(r, n, a.data(), p.data(), m);
            double sum = 0;
            for (size_t i = 0; i < n; ++i) {
                sum += p[i];
                if (!(p[i] >= mm / (1 + n * mm) * .9999 && p[i] <= 1.0001)) violation("domain", MC_S(name << " gives share " << i << " as " << p[i]));
                if (m < 0 && a[i] == 0 && p[i] != 0) violation("domain", MC_S(name << " gives a share of " << p[i] << " to weight zero"));
            }
            if (!close(sum, 1, 1e-5)) violation("domain", MC_S(name << ": the shares total " << sum));
            for (size_t k = 0; k < laws.size(); ++k) {
                double q = p[of[k].first] * (1 + n * mm) - mm;
                if (of[k].second != of[k].first) q += p[of[k].second] * (1 + n * mm) - mm;
                laws[k].put(q);
            }
        });
        for (auto & l : laws) l.done();
    }
}
// ---- matrices
typedef Eigen::MatrixXf MX; typedef Eigen::VectorXf VX; typedef Eigen::MatrixXd MD; typedef Eigen::VectorXd VD;
static MX matrix(int d, int kind) {
    MX m(d, d);
    for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) m(i, j) = i == j ? (kind == 0 ? 1.f : 1.f + 2.f * i) : kind == 0 ? 0.f : (i + j) % 2 ? .4f : -.3f;
    return m;
}
static vector<VD> directions(int d) {
    vector<VD> r;
    for (int i = 0; i < d; ++i) { VD w = VD::Zero(d); w(i) = 1; r.push_back(w); for (int j = 0; j < i; ++j) { VD u = w; u(j) = 1; r.push_back(u); u(j) = -1; r.push_back(u); } }
    VD all(d); for (int i = 0; i < d; ++i) all(i) = 1 - .5 * i; r.push_back(all);
    return r;
}
template<int D> void matrices(int d) {
    typedef Eigen::Matrix<float, D, D> M; typedef Eigen::Matrix<float, D, 1> V;
    for (int kind = 0; kind < 2; ++kind) {
        const M cov = matrix(d, kind);
        const MD C = cov.template cast<double>(), I = C.inverse();
        V mu; mu.resize(d, Eigen::NoChange); for (int i = 0; i < d; ++i) mu(i) = .5f * i - 1;
        const auto W = directions(d);
        const std::string tag = MC_S(d << (D < 0 ? " dimensions, " : " fixed dimensions, ") << (kind ? "correlated" : "unit"));
        {
            Context c("sample_multivariate_normal, " + tag);
            vector<Law> laws;
            for (auto & w : W) { double m = w.dot(mu.template cast<double>()), s = std::sqrt(w.dot(C * w)); laws.emplace_back(MC_S("sample_multivariate_normal, " << tag << ", direction " << laws.size()), [=](double x) { return normal_cdf((x - m) / s); }); }
            laws.emplace_back("sample_multivariate_normal, " + tag + ", distance", [=](double x) { return gamma_cdf(.5 * d, .5 * x); });
            orbit(step(false), [&](rng_t r) {
                transition();
                const VD x = sample_multivariate_normal(mu, cov, r).template cast<double>(), y = x - mu.template cast<double>();
                for (size_t k = 0; k < W.size(); ++k) laws[k].put(W[k].dot(x));
                laws.back().put(y.dot(I * y));
            });
            for (auto & l : laws) l.done();
        }
        for (float nu : {d + .5f, d + 4.f, 40.f}) {
            const std::string t = MC_S(tag << ", " << nu << " degrees of freedom");
            Context c("Wishart family, " + t);
            vector<Law> wi, iw, niw;
            // w'Xw / w'Vw is chi-square (nu); for the inverse, w'Psi w / w'Xw is chi-square (nu - d + 1)
            for (size_t k = 0; k < W.size(); ++k) {
                const VD w = W[k];
                wi.emplace_back(MC_S("sample_wishart, " << t << ", direction " << k), [=](double x) { return gamma_cdf(.5 * nu, .5 * x / w.dot(C * w)); });
                iw.emplace_back(MC_S("sample_inverse_wishart, " << t << ", direction " << k), [=](double x) { return x <= 0 ? 0 : 1 - gamma_cdf(.5 * (nu - d + 1), .5 * w.dot(C * w) / x); }, -1e300, 1e300);
                niw.emplace_back(MC_S("sample_normal_inverse_wishart, " << t << ", covariance, direction " << k), iw.back().cdf);
                niw.emplace_back(MC_S("sample_normal_inverse_wishart, " << t << ", mean, direction " << k), normal_cdf);
            }
            const float lambda = kind ? 4.f : .5f;
            size_t odd = 0, N = 0;
            orbit(step(true), [&](rng_t r) {
                transition(3); ++N;
                rng_t q(r), p(r);
                const MD X = sample_wishart(nu, cov, r).template cast<double>();
                if (!close((X - X.transpose()).norm(), 0, 1e-4 * X.norm())) violation("domain", "sample_wishart gives a matrix that is not symmetric, " + t);
                for (size_t k = 0; k < W.size(); ++k) wi[k].put(W[k].dot(X * W[k]));
                const MD Y = sample_inverse_wishart(nu, cov, q).template cast<double>();
                if (nu > d + 1) for (size_t k = 0; k < W.size(); ++k) iw[k].put(W[k].dot(Y * W[k]));
                std::pair<V, M> z;
                try { z = sample_normal_inverse_wishart(mu, lambda, cov, nu, p); }
                catch (const std::exception &) { if (++odd > N / 50 + 20) throw; return; }     // singular in float: the known finding of C15
                const MD Z = z.second.template cast<double>();
                const VD m = z.first.template cast<double>() - mu.template cast<double>();
                if (nu > d + 1) for (size_t k = 0; k < W.size(); ++k) { double v = W[k].dot(Z * W[k]); niw[2 * k].put(v); niw[2 * k + 1].put(W[k].dot(m) / std::sqrt(v / lambda)); }
            });
            if (nu > d + 1) for (auto * l : {&wi, &iw, &niw}) for (auto & x : *l) x.done();
            else for (auto & x : wi) x.done();
        }
    }
}
// ---- densities
static void densities() {
    for (float nu : {.5f, 1.f, 2.f, 3.5f, 10.f, 100.f, 3000.f}) for (float mu : {-2.f, 0.f, 30.f}) for (float lambda : {.01f, .5f, 1.f, 40.f}) {
        state(); trace_done();
        Context c(MC_S("student t, nu " << nu << ", mean " << mu << ", precision " << lambda));
        for (float z : {0.f, .01f, .5f, 1.f, -1.f, 3.f, -8.f, 100.f, 1e4f}) {
            const float x = mu + z / std::sqrt(lambda);
            const double dx = (double)x - mu, want = std::lgamma(.5 * nu + .5) - std::lgamma(.5 * nu) + .5 * std::log((double)lambda / (M_PI * nu)) - (.5 * nu + .5) * std::log1p(lambda * dx * dx / nu);
            float exact = score_student_t(x, nu, mu, lambda), fast = fast_score_student_t(x, nu, mu, lambda);
            eval(2); transition(2);
            if (!close(exact, want, 1e-3 + 3e-7 * nu * std::log(nu + 2) , 1e-4)) violation("student-t", MC_S("score_student_t(" << x << ") = " << exact << ", exact " << want));
            if (!close(fast, want, .018 + 1e-4 * nu, 1e-4)) violation("fast-student-t", MC_S("fast_score_student_t(" << x << ") = " << fast << ", exact " << want));
        }
    }
    for (int d : {1, 2, 3, 5}) for (int kind = 0; kind < 2; ++kind) for (float nu : {.7f, 2.f, 9.f, 200.f}) for (float scale : {.01f, 1.f, 50.f}) {
        state(); trace_done();
        Context c(MC_S("multivariate student t, " << d << " dimensions, nu " << nu << ", scale " << scale));
        const MX s = matrix(d, kind) * scale;
        const MD S = s.cast<double>();
        const double det = S.determinant();
        VX mu(d); for (int i = 0; i < d; ++i) mu(i) = .5f * i - 1;
        for (auto & w : directions(d)) for (double z : {0., .3, 1., 10.}) {
            const VX x = mu + (w * z * std::sqrt((double)scale)).cast<float>();
            const VD y = x.cast<double>() - mu.cast<double>();
            const double want = std::lgamma(.5 * (nu + d)) - std::lgamma(.5 * nu) - .5 * std::log(det) - .5 * d * std::log(M_PI * nu) - .5 * (nu + d) * std::log1p(y.dot(S.inverse() * y) / nu);
            float got = score_mv_student_t(x, nu, mu, s);
            eval(); transition();
            if (!close(got, want, 2e-3 + 1e-4 * (nu + d), 2e-4)) violation("mv-student-t", MC_S("score_mv_student_t at distance " << z << " = " << got << ", exact " << want));
        }
    }
    sample("densities on grids of their parameters");
}
int main(int argc, char ** argv) {
    if (!rng_as_expected()) { fprintf(stderr, "rng_t is not the generator this check enumerates\n"); return 2; }
    Jobs jobs;
    jobs.push_back({"simple", simple});
    for (int i = 0; i < 4; ++i) jobs.push_back({MC_S("gammas/" << i), [=] { gammas(i); }});
    jobs.push_back({"counts", counts});
    for (int i = 0; i < 6; ++i) jobs.push_back({MC_S("betas/" << i), [=] { betas(i); }});
    jobs.push_back({"dirichlets", dirichlets});
    for (int d : {1, 2, 3, 5}) jobs.push_back({MC_S("matrices/" << d), [=] { matrices<-1>(d); }});
    jobs.push_back({"matrices/fixed2", [] { matrices<2>(2); }});
    jobs.push_back({"densities", densities});
    return main_(argc, argv, jobs);
}
