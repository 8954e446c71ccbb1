// C11: the low-entropy prior matches its definition on every partition.
#include "clustering_core.hpp"
using namespace mc;
static double lg(double x) { return std::lgamma(x); }
static const int ZMAX = 420;
// log Z(n), Z(n) = sum over set partitions of prod n_i^n_i, by the size of the first item's block
static vector<long double> & log_z() {
    static vector<long double> z;
    if (z.empty()) {
        z.push_back(0);
        for (int n = 1; n <= ZMAX; ++n) {
            vector<long double> t;
            for (int k = 1; k <= n; ++k) t.push_back(std::lgamma((long double)n) - std::lgamma((long double)k) - std::lgamma((long double)(n - k + 1)) + k * std::log((long double)k) + z[n - k]);
            long double m = *std::max_element(t.begin(), t.end()), s = 0;
            for (auto x : t) s += std::exp(x - m);
            z.push_back(m + std::log(s));
        }
    }
    return z;
}
static double doc_log_z(double n) { return n < 48 ? (double)log_z()[(int)n] : n * std::log(n) * (1 + 0.28269584 * std::pow(n, -.75)); }
static double tol(double n) { return 1e-3 + 1e-4 * n + 3e-7 * n * std::log(n + 2); }   // n times fast_log's error
static double n_log_n(const Sizes & s) { double r = 0; for (int n : s) if (n > 1) r += n * std::log((double)n); return r; }
static int sum(const Sizes & s) { int r = 0; for (int n : s) r += n; return r; }
static double definition(const LE & m, const Sizes & s) {
    double n = sum(s), N = m.dataset_size, k = 0;
    for (int x : s) k += x > 0;
    double r = n_log_n(s) - doc_log_z(n);
    if (n && n != N) r += le_postpred(m, n) * (k - 1) + .061 * std::log(n) * (std::log(n) - std::log(N)) * std::pow(std::log(n) + std::log(N), .75);
    return r;
}
static void compare(const LE & m, const Sizes & s, const char * key) {
    eval();
    float got = m.score_counts(s);
    double want = definition(m, s);
    if (!close(got, want, tol(sum(s)))) violation(key, MC_S("LowEntropy(" << m.dataset_size << ").score_counts(" << vss(s) << ") = " << got << ", its definition gives " << want));
}
static void partitions(int n, int max, Sizes & cur, const std::function<void(const Sizes &)> & f) {
    if (!n) { f(cur); return; }
    for (int k = std::min(n, max); k; --k) { cur.push_back(k); partitions(n - k, k, cur, f); cur.pop_back(); }
}
static double multiplicity(const Sizes & p) {
    double r = lg(sum(p) + 1.0);
    std::map<int, int> rep;
    for (int c : p) { r -= lg(c + 1.0); ++rep[c]; }
    for (auto & x : rep) r -= lg(x.second + 1.0);
    return r;
}
static void full(int max_n) {
    for (int n = 1; n <= max_n; ++n) {
        LE m; m.dataset_size = n;
        double total = 0;
        Sizes cur;
        partitions(n, n, cur, [&](const Sizes & p) {
            state();
            eval();
            float got = m.score_counts(p);
            double want = n_log_n(p) - (double)log_z()[n];
            if (!close(got, want, tol(n))) violation("full", MC_S("full data set of " << n << ": score_counts(" << vss(p) << ") = " << got << ", exact " << want));
            total += std::exp(multiplicity(p) + (double)got);
        });
        trace_done();
        if (!close(total, 1, 2 * tol(n))) violation("normalisation", MC_S("the probabilities of all partitions of " << n << " items total " << total));
    }
    sample(MC_S("every partition of 1.." << max_n << " items as a full data set"));
}
static void partition_function() {
    LE m; m.dataset_size = 1000000000;
    for (int n = 0; n <= ZMAX; ++n) {
        eval(); trace_done();
        float got = m.log_partition_function(n);
        double want = (double)log_z()[n];
        double bound = n < 48 ? 1e-5 * (1 + want) : tol(n) + 1.2e-3 * (n - 47);   // documented: exact below 48, coarse above
        if (!close(got, want, bound)) violation("log_partition_function", MC_S("log_partition_function(" << n << ") = " << got << ", exact " << want));
        extra_max("partition_function_error", std::fabs(got - want));
    }
    for (int n = 48; n < 2000000000; n += 1 + n / 50) {
        eval(); trace_done();
        float got = m.log_partition_function(n);
        if (!close(got, doc_log_z(n), tol(n), 1e-5)) violation("log_partition_function", MC_S("log_partition_function(" << n << ") = " << got << ", documented " << doc_log_z(n)));
    }
}
static void partial(int N, int max_n) {
    LE m; m.dataset_size = N;
    Context c(MC_S("dataset_size " << N));
    for (int n = 0; n <= std::min(N, max_n); ++n) {
        Sizes cur;
        partitions(n, n, cur, [&](const Sizes & p) {
            state();
            Sizes q(p);
            std::sort(q.begin(), q.end());
            const float base = m.score_counts(q);
            do {
                transition();
                compare(m, q, "partial");
                if (!close(m.score_counts(q), base, 1e-4, 1e-5)) violation("order", MC_S("score_counts depends on the order of " << vss(q)));
                for (size_t i = 0; i <= q.size(); ++i) {
                    Sizes z(q);
                    z.insert(z.begin() + i, 1 + i % 2, 0);
                    eval();
                    if (!close(m.score_counts(z), m.score_counts(q), 1e-5)) violation("empty-groups", MC_S("score_counts(" << vss(z) << ") = " << m.score_counts(z) << ", without the empty groups " << m.score_counts(q)));
                }
            } while (n <= 8 && std::next_permutation(q.begin(), q.end()));
            trace_done();
        });
    }
}
// exact marginal of a partition of n of the N items, against the documented approximation
static void marginal(int N) {
    LE m; m.dataset_size = N;
    std::map<Sizes, double> prob;    // sorted sizes -> probability of one labelled partition
    Sizes cur;
    partitions(N, N, cur, [&](const Sizes & p) { Sizes q(p); std::sort(q.begin(), q.end()); prob[q] = std::exp(n_log_n(q) - (double)log_z()[N]); });
    for (int n = N - 1; n >= 1; --n) {
        std::map<Sizes, double> small;
        partitions(n, n, cur, [&](const Sizes & p) {
            double t = 0;
            for (size_t g = 0; g <= p.size(); ++g) { Sizes q(p); if (g < p.size()) ++q[g]; else q.push_back(1); std::sort(q.begin(), q.end()); t += prob[q]; }
            Sizes q(p); std::sort(q.begin(), q.end());
            small[q] = t;
        });
        prob = small;
        double total = 0;
        for (auto & p : prob) {
            state(); eval();
            float got = m.score_counts(p.first);
            double err = got - std::log(p.second), bound = .05 * p.first.size() + .02;
            extra_max("partial_error_per_group", std::fabs(err) / p.first.size());
            if (!(std::fabs(err) < bound)) violation("partial-exact", MC_S(n << " of " << N << " items: score_counts(" << vss(p.first) << ") = " << got << ", exact marginal " << std::log(p.second)));
            total += std::exp(multiplicity(p.first) + got);
        }
        trace_done();
        extra_max("partial_total_error", std::fabs(std::log(total)));
    }
}
static void single(int N) {   // adding and removing one value
    LE m; m.dataset_size = N;
    Context c(MC_S("dataset_size " << N));
    vector<int> sizes;
    for (int i = 0; i <= 64; ++i) sizes.push_back(i);
    for (int i : {100, 1000, 9998, 9999, 10000, 10001, 10002, 65537, 1000000, 16777217}) sizes.push_back(i);
    for (int s : sizes) for (int groups : {0, 1, 2, 5, 300}) for (int others : {0, 1, 2, 3, 46, 47, 48, 1000, 1000000}) for (int e = 1; e <= 4; ++e) {
        long n = (long)s + others;
        if (groups > n || n >= N || (s && !groups)) continue;
        eval(); trace_done();
        float add = m.score_add_value(s, groups, n, e);
        double want = le_add(m, s, groups, n, e);
        double t = s > 10000 ? 1e-3 : 3e-4 + 7e-5 * s;
        if (!close(add, want, t)) violation("score_add_value", MC_S("score_add_value(" << s << "," << groups << "," << n << "," << e << ") = " << add << ", its definition gives " << want));
        float rem = m.score_remove_value(s + 1, groups + (s == 0), n + 1, e);
        if (!(rem == -add)) violation("score_remove_value", MC_S("score_remove_value(" << s + 1 << "," << groups + (s == 0) << "," << n + 1 << "," << e << ") = " << rem << ", adding it back scores " << add));
    }
}
int main(int argc, char ** argv) {
    Jobs jobs;
    log_z();
    jobs.push_back({"full", [] { full(thorough() ? 47 : 42); }});
    jobs.push_back({"partition-function", partition_function});
    for (int N : {1, 2, 3, 4, 7, 12, 48, 200, 100000, 1000000000}) {
        jobs.push_back({MC_S("partial/" << N), [=] { partial(N, thorough() ? 32 : 24); single(N); sample(MC_S("dataset_size " << N)); }});
    }
    for (int N : {2, 3, 5, 8, 12, 20, 30}) jobs.push_back({MC_S("marginal/" << N), [=] { if (N < 30 || thorough()) marginal(N); else eval(); }});
    return main_(argc, argv, jobs);
}
