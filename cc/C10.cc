// C10: Pitman-Yor scores form an exchangeable probability over partitions.
#include "clustering_core.hpp"
using namespace mc;
static double lg(double x) { return std::lgamma(x); }
struct Setting { float alpha, d; };
// Ewens-Pitman formula in double precision
static double exact(const PY & m, const Sizes & n) {
    double a = m.alpha, d = m.d, s = 0; int t = 0, k = 0;
    for (int c : n) if (c) {
        if (k) s += std::log(a + d * k);
        s += lg(c - d) - lg(1 - d);
        ++k; t += c;
    }
    if (t) s += lg(a + 1) - lg(a + t);
    return s;
}
static double tol(const PY & m, const Sizes & n) {   // fast_log 6.2e-5 per call, fast_lgamma 6.3e-6 of its argument
    double t = 2e-4, total = m.alpha;
    for (int c : n) { total += c; t += 1.5e-4 + 7e-6 * c + (c > 2 ? 1.4e-5 * total : 0) + 2e-7 * total * std::log(2 + total); }
    return t;
}
static void compare(const PY & m, const Sizes & n, const char * key) {
    eval();
    float got = m.score_counts(n);
    double want = exact(m, n);
    if (!close(got, want, tol(m, n))) violation(key, MC_S("score_counts(" << vss(n) << ") = " << got << ", exact " << want << " (tolerance " << tol(m, n) << ")"));
}
static void partitions(int n, int max, Sizes & cur, const std::function<void(const Sizes &)> & f) {
    if (!n) { f(cur); return; }
    for (int k = std::min(n, max); k; --k) { cur.push_back(k); partitions(n - k, k, cur, f); cur.pop_back(); }
}
static void total(const PY & m, int max_n) {
    for (int n = 0; n <= max_n; ++n) {
        double sum = 0, t = 0;
        Sizes cur;
        partitions(n, n, cur, [&](const Sizes & p) {
            state();
            compare(m, p, "score_counts");
            double mult = lg(n + 1);
            std::map<int, int> rep;
            for (int c : p) { mult -= lg(c + 1); ++rep[c]; }
            for (auto & r : rep) mult -= lg(r.second + 1);
            double pr = std::exp(mult + (double)m.score_counts(p));
            sum += pr; t += pr * tol(m, p);
        });
        eval(); trace_done();
        if (!close(sum, 1, 2 * t + 1e-3)) violation("normalisation", MC_S("the probabilities of all partitions of " << n << " items total " << sum));
    }
}
static void orders(const PY & m, int max_n) {   // every order of every size list, empty groups anywhere
    for (int n = 1; n <= max_n; ++n) {
        Sizes cur;
        partitions(n, n, cur, [&](const Sizes & p) {
            Sizes q(p);
            std::sort(q.begin(), q.end());
            const float base = m.score_counts(q);
            do {
                transition(); compare(m, q, "order");
                if (!close(m.score_counts(q), base, 2 * tol(m, q))) violation("order", MC_S("score depends on the order of " << vss(q)));
                for (size_t i = 0; i <= q.size(); ++i) for (int k = 1; k <= 2; ++k) {
                    Sizes z(q);
                    z.insert(z.begin() + i, k, 0);
                    eval(); transition();
                    if (!close(m.score_counts(z), m.score_counts(q), 1e-5)) violation("empty-groups", MC_S("score_counts(" << vss(z) << ") = " << m.score_counts(z) << ", without the empty groups " << m.score_counts(q)));
                }
            } while (std::next_permutation(q.begin(), q.end()));
            trace_done();
        });
    }
}
static void sequential(const PY & m, int max_n) {   // every arrival order of every labelled partition
    std::function<void(Sizes &, int, double)> go = [&](Sizes & s, int t, double score) {
        state(); transition();
        if (t) {
            eval();
            float whole = m.score_counts(s);
            if (!close(score, whole, tol(m, s) + 1e-4 * t)) violation("sequential", MC_S("joining one at a time up to " << vss(s) << " totals " << score << ", score_counts is " << whole));
        }
        if (t == max_n) { trace_done(); return; }
        for (size_t g = 0; g <= s.size(); ++g) {
            int size = g < s.size() ? s[g] : 0;
            for (int e = 1; e <= 3; ++e) {      // empty groups share the new mass
                double add = m.score_add_value(size, s.size(), t, e);
                double want = py_add(m, size, s.size(), t, e);
                if (t == 0 && g == s.size()) want = -std::log((double)e);
                eval();
                if (!close(add, want, 2.5e-4)) violation("score_add_value", MC_S("score_add_value(" << size << "," << s.size() << "," << t << "," << e << ") = " << add << ", exact " << want));
            }
            double add = m.score_add_value(size, s.size(), t);
            if (g < s.size()) { ++s[g]; go(s, t + 1, score + add); --s[g]; }
            else { s.push_back(1); go(s, t + 1, score + add); s.pop_back(); }
        }
    };
    Sizes s;
    go(s, 0, 0);
}
static void removal(const PY & m) {
    vector<int> sizes;
    for (int i = 1; i <= 40; ++i) sizes.push_back(i);
    for (int i : {100, 1000, 65537, 16777217, 1000000000}) sizes.push_back(i);
    for (int s : sizes) for (int groups : {1, 2, 3, 7, 100, 5000}) for (int others : {0, 1, 2, 9, 1000, 1000000}) for (int e = 1; e <= 4; ++e) {
        int n = s + others;
        if (groups > n) continue;
        eval(); trace_done();
        float rem = m.score_remove_value(s, groups, n, e);
        float add = m.score_add_value(s - 1, groups - (s == 1), n - 1, e);
        if (!(rem == -add) || !finite(rem)) violation("removal", MC_S("score_remove_value(" << s << "," << groups << "," << n << "," << e << ") = " << rem << ", adding it back scores " << add));
        double want = s == 1 ? std::log((m.alpha + (double)m.d * (groups - 1)) / (n - 1 + (double)m.alpha) / e) : std::log((s - 1 - (double)m.d) / (n - 1 + (double)m.alpha));
        if (!close(rem, -want, 3e-4)) violation("removal", MC_S("score_remove_value(" << s << "," << groups << "," << n << "," << e << ") = " << rem << ", exact " << -want));
    }
}
static void big(const PY & m) {
    vector<int> v{0, 1, 2, 3, 50, 999, 10000, 65535, 1000000};
    for (int a : v) for (int b : v) for (int c : v) { trace_done(); compare(m, {a, b, c}, "score_counts-large"); }
    for (int k : {1, 2, 3, 50}) for (int n : {10, 300, 2000}) { trace_done(); compare(m, Sizes(n, k), "score_counts-large"); }
}
int main(int argc, char ** argv) {
    Jobs jobs;
    for (float alpha : {.01f, .5f, 1.f, 10.f, 1000.f}) {
        jobs.push_back({MC_S("alpha/" << alpha), [=] {
            for (float d : {0.f, .01f, .1f, .5f, .9f, .99f}) {
                PY m; m.alpha = alpha; m.d = d;
                Context c(MC_S("PitmanYor(" << alpha << "," << d << ")"));
                bool th = thorough();
                total(m, th ? 45 : 30);
                orders(m, th ? 12 : 10);
                sequential(m, th ? 12 : 10);
                removal(m);
                big(m);
            }
            sample(MC_S("alpha " << alpha << ": six discounts, all partitions"));
        }});
    }
    return main_(argc, argv, jobs);
}
