// C12: sampled partitions follow the clustering prior.
#include "states.hpp"
#include <distributions/clustering.hpp>
using namespace mc;
typedef Clustering<int>::PitmanYor PY;
typedef Clustering<int>::LowEntropy LE;
static std::string show(const vector<int> & v) { std::string s = "["; for (size_t i = 0; i < v.size() && i < 12; ++i) s += MC_S((i ? "," : "") << v[i]); return s + "]"; }

// the sequential probability of joining a table, from the prior's definition
struct PyDef {
    PY m;
    double weight(int size, int tables, int) const { return size ? size - (double)m.d : m.alpha + (double)m.d * tables; }
};
struct LeDef {
    LE m;
    double weight(int size, int, int n) const {
        double N = m.dataset_size;
        if (!size) return n + 1 < N ? std::exp(std::log(N / (n + 1)) * (.45 - .1 / (n + 1) - .1 / N)) : 1.0;
        return std::exp((size + 1.0) * std::log(size + 1.0) - size * std::log((double)size));
    }
};
static bool contiguous(const vector<int> & a) {
    int next = 0;
    for (int x : a) { if (x < 0 || x > next) return false; next += x == next; }
    return true;
}
template<class D> void enumerate(const D & d, int n, uint64_t q, double bias, const char * what) {
    Context c(MC_S(what << ".sample_assignments(" << n << ") over every " << q << "-th state of the cycle"));
    std::map<vector<int>, double> seen;
    const uint64_t K = (RNG_MOD - 1) / q;
    bool bad = false;
    orbit(q, [&](rng_t r) {
        if (bad) return;
        auto a = d.m.sample_assignments(n, r);
        transition();
        if ((int)a.size() != n) { bad = true; violation("size", MC_S("returns " << a.size() << " labels")); return; }
        if (!contiguous(a)) { bad = true; violation("labels", MC_S("returns " << show(a) << ", not labelled in order of first appearance")); return; }
        seen[a] += 1.0 / K;
    });
    if (bad) return;
    // the tree of all label vectors, with the product of sequential probabilities
    double total = 0;
    std::function<void(vector<int> &, vector<int> &, double)> go = [&](vector<int> & a, vector<int> & sizes, double p) {
        if ((int)a.size() == n) {
            state(); eval(); trace_done();
            double got = 0;
            auto i = seen.find(a);
            if (i != seen.end()) { got = i->second; seen.erase(i); }
            double tol = 7 * std::sqrt(p * (1 - p) / K) + bias * (p < .05 ? p * 20 : 1) + 4.0 / K;
            extra_max("worst_frequency_error", std::fabs(got - p));
            if (!close(got, p, tol)) violation("frequency", MC_S(show(a) << " is returned for a fraction " << got << " of the states, its probability is " << p));
            total += p;
            return;
        }
        double sum = 0;
        vector<double> w;
        for (size_t g = 0; g <= sizes.size(); ++g) { w.push_back(d.weight(g < sizes.size() ? sizes[g] : 0, sizes.size(), a.size())); sum += w.back(); }
        if (a.empty()) sum = w[0];
        for (size_t g = 0; g < w.size(); ++g) {
            a.push_back(g);
            if (g < sizes.size()) { ++sizes[g]; go(a, sizes, p * w[g] / sum); --sizes[g]; }
            else { sizes.push_back(1); go(a, sizes, p * w[g] / sum); sizes.pop_back(); }
            a.pop_back();
        }
    };
    vector<int> a, s;
    go(a, s, 1);
    if (!close(total, 1, 1e-9)) violation("reference", "the reference does not total one");
    for (auto & p : seen) violation("unexpected", MC_S(show(p.first) << " is returned but is not a label vector"));
    sample(MC_S(what << ", " << n << " items"));
}
// Long vectors: the law of the next label given the history, grouped by the
// size of the table joined (or new), aggregated over states and positions.
template<class D> void lengthy(const D & d, int n, uint64_t q, double bias, const char * what) {
    Context c(MC_S(what << ".sample_assignments(" << n << ") over every " << q << "-th state of the cycle"));
    struct Cell { double got = 0, want = 0, var = 0; };
    std::map<std::pair<int, int>, Cell> cells;    // (stage, class) -> joins observed / expected
    auto cls = [](int s) { return s == 0 ? 0 : s < 4 ? s : s < 8 ? 4 : s < 16 ? 5 : s < 64 ? 6 : 7; };
    bool bad = false;
    orbit(q, [&](rng_t r) {
        if (bad) return;
        auto a = d.m.sample_assignments(n, r);
        transition();
        if ((int)a.size() != n) { bad = true; violation("size", MC_S("returns " << a.size() << " labels")); return; }
        if (!contiguous(a)) { bad = true; violation("labels", MC_S("not labelled in order of first appearance: " << show(a))); return; }
        std::map<int, int> by;     // table size -> tables
        vector<int> sizes;
        for (int i = 0; i < n; ++i) {
            double sum = d.weight(0, sizes.size(), i);
            std::map<int, double> w;
            w[0] += sum;
            for (auto & b : by) { double x = b.second * d.weight(b.first, sizes.size(), i); w[cls(b.first)] += x; sum += x; }
            int stage = i < 8 ? 0 : i < 32 ? 1 : i < 90 ? 2 : i < 130 ? 3 : 4;
            if (i) for (auto & x : w) { Cell & e = cells[{stage, x.first}]; double p = x.second / sum; e.want += p; e.var += p * (1 - p); }
            int s = a[i] < (int)sizes.size() ? sizes[a[i]] : 0;
            if (i) cells[{stage, cls(s)}].got += 1;
            if (s) { if (!--by[s]) by.erase(s); ++sizes[a[i]]; } else sizes.push_back(1);
            ++by[s + 1];
        }
        trace_done();
    });
    if (bad) return;
    for (auto & e : cells) {
        state(); eval();
        double tol = 7 * std::sqrt(e.second.var) + 8 + bias * e.second.want;
        if (!close(e.second.got, e.second.want, tol)) violation("frequency-long", MC_S("stage " << e.first.first << " of the vector: tables of size class " << e.first.second << " are joined " << e.second.got << " times, expected " << e.second.want << " +- " << std::sqrt(e.second.var)));
    }
}
static void edge(const PY & py, const LE & le) {
    for (int n = 0; n <= 3; ++n) for (uint64_t k = 0; k < 2000; ++k) for (int end = 0; end < 2; ++end) {
        uint64_t x = end ? RNG_MOD - 1 - k : 1 + k;
        rng_t r = rng_with_next(x), q = r;
        auto a = py.sample_assignments(n, r);
        auto b = le.sample_assignments(n, q);
        eval(2);
        if ((int)a.size() != n || !contiguous(a)) violation("labels-ends", MC_S("PitmanYor from the state with output " << x << ": " << show(a)));
        if ((int)b.size() != n || !contiguous(b)) violation("labels-ends", MC_S("LowEntropy from the state with output " << x << ": " << show(b)));
    }
}
int main(int argc, char ** argv) {
    if (!rng_as_expected()) { fprintf(stderr, "rng_t is not the generator this check enumerates\n"); return 2; }
    Jobs jobs;
    const bool th = thorough();
    const uint64_t q1 = th ? 18 : 662, q2 = th ? 42 : 1302, ql = th ? 3641 : 3641 * 31;
    for (float alpha : {.01f, .5f, 1.f, 10.f, 1000.f}) for (float d : {0.f, .1f, .5f, .9f}) jobs.push_back({MC_S("py/" << alpha << "/" << d), [=] {
        PyDef p; p.m.alpha = alpha; p.m.d = d;
        std::string w = MC_S("PitmanYor(" << alpha << "," << d << ")");
        for (int n = 0; n <= 3; ++n) enumerate(p, n, q2, 1e-4, w.c_str());
        for (int n = 4; n <= 6; ++n) enumerate(p, n, n == 5 ? q1 : q2, 1e-4, w.c_str());
        lengthy(p, 200, ql, 2e-3, w.c_str());
    }});
    for (int N : {6, 7, 20, 1000, 1000000}) jobs.push_back({MC_S("le/" << N), [=] {
        LeDef p; p.m.dataset_size = N;
        std::string w = MC_S("LowEntropy(" << N << ")");
        for (int n = 0; n <= 6; ++n) enumerate(p, n, q1, 1e-4, w.c_str());
        lengthy(p, std::min(N, 200), ql, 5e-3, w.c_str());
    }});
    jobs.push_back({"ends", [] { PY p; p.alpha = 1; p.d = .2f; LE l; l.dataset_size = 3; edge(p, l); p.alpha = 1e-6f; p.d = 0; l.dataset_size = 100; edge(p, l); sample("first and last 2000 generator outputs"); }});
    return main_(argc, argv, jobs);
}
