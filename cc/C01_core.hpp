// C01: group statistics depend only on the data held.
// Alphabet: add / repeated add (2, 3 and 40 copies) / remove on group A, add on
// group B, merge both ways, re-initialise.  Every operation sequence up to the
// depth bound, plus breadth-first closure over the reachable group states.
#pragma once
#include "grids.hpp"
#include <deque>
#include <unordered_set>
using namespace mc;

template<class M> struct Pair {
    typename M::Group a, b;
    Bag na, nb;
};
struct Op { int kind; size_t v; int count; };  // 0 addA 1 repA 2 remA 3 addB 4 remB 5 A+=B 6 B+=A 7 initB 8 initA 9 A=copy of itself merged into empty

static std::string op_s(const Op & o) {
    static const char * n[] = {"A.add", "A.add_repeated", "A.remove", "B.add", "B.remove", "A.merge(B)", "B.merge(A)", "B.init", "A.init", "C=empty;C.merge(A);A=C"};
    return o.kind <= 4 ? MC_S(n[o.kind] << "(#" << o.v << (o.kind == 1 ? MC_S(", x" << o.count) : "") << ")") : std::string(n[o.kind]);
}

template<class M> struct Explorer {
    typedef Tr<M> T;
    typename M::Shared shared;
    vector<typename M::Value> vals;
    vector<Op> ops;
    int max_count;
    std::map<std::string, Fields> fresh_dump;
    rng_t rng;

    struct Expect { Fields dump; vector<float> score; float data; };
    std::map<Bag, Expect> memo;

    const Expect & expect(const Bag & n) {
        auto i = memo.find(n);
        if (i != memo.end()) return i->second;
        auto g = fresh<M>(shared, n);
        Expect e;
        e.dump = dump<M>(g);
        for (auto v : vals) { typename M::Value x = v; e.score.push_back(g.score_value(shared, x, rng)); }
        e.data = g.score_data(shared, rng);
        return memo[n] = e;
    }
    void check_group(const char * which, const typename M::Group & g, const Bag & n) {
        if (!nonneg(n)) return;
        const Expect & e = expect(n);
        eval();
        double ft = 1e-3, fr = 1e-4;
        auto d = dump<M>(g);
        if (!fields_close(d, e.dump, ft, fr))
            violation(MC_S(T::name() << "-dump"), MC_S("group " << which << " holding " << bag_s(n) << " dumps " << fields_s(d) << ", built from its data " << fields_s(e.dump)));
        for (size_t i = 0; i < vals.size(); ++i) {
            typename M::Value x = vals[i];
            float s = g.score_value(shared, x, rng);
            if (!close(s, e.score[i], T::tol(), 1e-4))
                violation(MC_S(T::name() << "-score_value"), MC_S("group " << which << " holding " << bag_s(n) << " scores value #" << i << " " << s << ", built from its data " << e.score[i]));
        }
        float s = g.score_data(shared, rng);
        if (!close(s, e.data, T::tol(), 1e-4))
            violation(MC_S(T::name() << "-score_data"), MC_S("group " << which << " holding " << bag_s(n) << " score_data " << s << ", built from its data " << e.data));
    }
    bool enabled(const Pair<M> & p, const Op & o) {
        int low = T::debt ? -1 : 0;
        switch (o.kind) {
            case 0: return p.na[o.v] + 1 <= max_count;
            case 1: return p.na[o.v] <= max_count;
            case 2: return p.na[o.v] > low;
            case 3: return p.nb[o.v] + 1 <= max_count;
            case 4: return p.nb[o.v] > low;
            case 5: case 6:
                for (size_t i = 0; i < p.na.size(); ++i) if (p.na[i] + p.nb[i] > 2 * max_count + 40) return false;
                return true;
            default: return true;
        }
    }
    void apply(Pair<M> & p, const Op & o) {
        transition();
        typename M::Value x = o.kind <= 4 ? typename M::Value(vals[o.v]) : typename M::Value(vals[0]);
        switch (o.kind) {
            case 0: p.a.add_value(shared, x, rng); ++p.na[o.v]; break;
            case 1: p.a.add_repeated_value(shared, x, o.count, rng); p.na[o.v] += o.count; break;
            case 2: p.a.remove_value(shared, x, rng); --p.na[o.v]; break;
            case 3: p.b.add_value(shared, x, rng); ++p.nb[o.v]; break;
            case 4: p.b.remove_value(shared, x, rng); --p.nb[o.v]; break;
            case 5: p.a.merge(shared, p.b, rng); for (size_t i = 0; i < p.na.size(); ++i) p.na[i] += p.nb[i]; break;
            case 6: p.b.merge(shared, p.a, rng); for (size_t i = 0; i < p.na.size(); ++i) p.nb[i] += p.na[i]; break;
            case 7: p.b.init(shared, rng); p.nb.assign(p.nb.size(), 0); break;
            case 8: p.a.init(shared, rng); p.na.assign(p.na.size(), 0); break;
            case 9: { typename M::Group c; c.init(shared, rng); c.merge(shared, p.a, rng); p.a = c; break; }
        }
    }
    void check(const Pair<M> & p) { check_group("A", p.a, p.na); check_group("B", p.b, p.nb); }
    Pair<M> start() {
        Pair<M> p;
        p.a.init(shared, rng); p.b.init(shared, rng);
        p.na.assign(vals.size(), 0); p.nb = p.na;
        return p;
    }
    void dfs(const Pair<M> & p, int depth) {
        check(p);
        if (depth == 0) { trace_done(); return; }
        for (auto & o : ops) {
            if (!enabled(p, o)) continue;
            Step step(op_s(o));
            Pair<M> q = p;
            apply(q, o);
            dfs(q, depth - 1);
        }
    }
    std::string key(const Pair<M> & p) {
        return T::raw(p.a) + "|" + T::raw(p.b) + "|" + bag_s(p.na) + bag_s(p.nb);
    }
    void bfs(int depth, size_t max_states) {
        std::unordered_set<std::string> seen;
        struct Node { Pair<M> p; vector<int> path; };
        std::deque<Node> frontier;
        frontier.push_back({start(), {}});
        seen.insert(key(frontier.back().p));
        int completed = 0;
        while (!frontier.empty()) {
            Node n = frontier.front(); frontier.pop_front();
            if ((int)n.path.size() >= depth) continue;
            completed = n.path.size();
            for (size_t i = 0; i < ops.size(); ++i) {
                if (!enabled(n.p, ops[i])) continue;
                Node m = n;
                m.path.push_back(i);
                apply(m.p, ops[i]);
                if (!seen.insert(key(m.p)).second) continue;
                store().path.clear();
                for (int k : m.path) store().path.push_back(op_s(ops[k]));
                state();
                check(m.p);
                trace_done();
                store().path.clear();
                if (seen.size() < max_states) frontier.push_back(m);
            }
        }
        extra_max(MC_S("bfs_depth_" << T::name()), completed + 1);
    }
    void run(const typename M::Shared & s, int si) {
        shared = s;
        for (auto v : T::values(s)) vals.push_back(v);
        Context c(MC_S(T::name() << " hyperparameters #" << si));
        bool th = thorough();
        vector<Op> all;
        for (size_t v = 0; v < vals.size() && v < 3; ++v) { all.push_back({0, v, 1}); all.push_back({2, v, 1}); }
        all.push_back({1, 0, 2}); all.push_back({1, 0, 0}); all.push_back({1, 1, 3}); if (vals.size() > 2) all.push_back({1, 2, 40}); else all.push_back({1, 1, 40});
        all.push_back({3, 0, 1}); all.push_back({3, 1, 1}); all.push_back({4, 0, 1});
        all.push_back({5, 0, 1}); all.push_back({6, 0, 1}); all.push_back({7, 0, 1}); all.push_back({8, 0, 1}); all.push_back({9, 0, 1});
        ops = all;
        max_count = 3;
        bool big = sizeof(typename M::Shared) > 500;   // dear to copy
        dfs(start(), th ? (big ? 4 : 5) : (big ? 3 : 4));
        bfs(th ? 9 : 6, th ? (big ? 40000 : 300000) : (big ? 1200 : 12000));
        sample(MC_S(T::name() << " expected values cached for " << memo.size() << " distinct multisets; e.g. score_data " << memo.begin()->second.data));
    }
};
template<class M> void job(int si) { Explorer<M>().run(Tr<M>::shareds()[si], si); }


// Groups holding hundreds to hundreds of thousands of rows: every sequence over
// {add, add 300, add 70000 copies, remove, merge both ways} up to a depth, against
// statistics and scores worked out from the multiset in double precision.
template<class V> Fields exact(const BetaBernoulli::Shared &, const Bag & n, const V &) { return {{"heads", n[0]}, {"tails", n[1]}}; }
template<class V> Fields exact(const BetaNegativeBinomial::Shared &, const Bag & n, const V & v) { return {{"count", bag_total(n)}, {"sum", value_sum(n, v, -1)}}; }
template<class V> Fields exact(const GammaPoisson::Shared &, const Bag & n, const V & v) {
    double l = 0;
    for (size_t i = 0; i < n.size(); ++i) l += n[i] * lg(1.0 + v[i]);
    return {{"count", bag_total(n)}, {"sum", value_sum(n, v, -1)}, {"log_prod", l}};
}
template<class V> Fields exact(const NormalInverseChiSq::Shared &, const Bag & n, const V & v) {
    double c = bag_total(n), m = c ? value_sum(n, v, -1) / c : 0, ss = 0;
    for (size_t i = 0; i < n.size(); ++i) ss += n[i] * (v[i] - m) * (v[i] - m);
    return {{"count", c}, {"mean", m}, {"ctv", ss}};
}
template<class S, class V> auto exact(const S & s, const Bag & n, const V & v) -> typename std::enable_if<(sizeof(s.dim) > 0), Fields>::type {
    Fields f{{"dim", (double)s.dim}};
    for (int i = 0; i < s.dim; ++i) f[MC_S("c" << i)] = 0;
    for (size_t i = 0; i < n.size(); ++i) f[MC_S("c" << v[i])] += n[i];
    return f;
}
template<class V> Fields exact(const DirichletProcessDiscrete::Shared &, const Bag & n, const V & v) {
    double k = 0;
    Fields f;
    for (size_t i = 0; i < n.size(); ++i) if (n[i]) { ++k; f[MC_S("c" << v[i])] = n[i]; }
    f["keys"] = f["values"] = k;
    return f;
}
template<class M> struct Big {
    typedef Tr<M> T;
    typename M::Shared s;
    decltype(T::values(s)) vals;
    rng_t rng;
    struct E { Fields dump; vector<double> score; double data; };
    std::map<Bag, E> memo;
    const E & of(const Bag & n) {
        auto i = memo.find(n);
        if (i != memo.end()) return i->second;
        E e{exact(s, n, vals), {}, T::ref(s, n, vals)};
        for (size_t v = 0; v < vals.size(); ++v) e.score.push_back(ref_pred<M>(s, n, vals, v));
        return memo[n] = e;
    }
    void check(const char * which, const typename M::Group & g, const Bag & n) {
        const E & e = of(n);
        eval();
        double N = bag_total(n), big = N < 100 ? 0 : 4e-6 * N * std::log(N);
        auto d = dump<M>(g);
        // the running mean and variance are floats: the variance is good to 0.05 plus a
        // share, and the scores take its logarithm up to n / 2 times
        const bool moments = !T::discrete;
        const double ctv = moments ? e.dump.at("ctv") : 0;
        const double more = moments ? .5 * (N + 1) * (.1 + 2e-3 * ctv) / (.5 + ctv) : 0;
        if (!fields_close(d, e.dump, moments ? 5e-2 : 2e-3, moments ? 5e-3 : 2e-4)) violation(MC_S(T::name() << "-dump"), MC_S("group " << which << " holding " << bag_s(n) << " dumps " << fields_s(d) << ", its data give " << fields_s(e.dump)));
        for (size_t i = 0; i < vals.size(); ++i) {
            typename M::Value x = vals[i];
            float p = g.score_value(s, x, rng);
            if (!close(p, e.score[i], T::tol() + more + err_bound(s, n, vals, i), 1e-4)) violation(MC_S(T::name() << "-score_value"), MC_S("group " << which << " holding " << bag_s(n) << " scores value #" << i << " " << p << ", its data give " << e.score[i]));
        }
        float q = g.score_data(s, rng);
        if (!close(q, e.data, T::tol() + big + more + err_bound(s, n, vals, -1), 1e-4)) violation(MC_S(T::name() << "-score_data"), MC_S("group " << which << " holding " << bag_s(n) << " score_data " << q << ", its data give " << e.data));
    }
    void dfs(const Pair<M> & p, int depth) {
        state();
        check("A", p.a, p.na); check("B", p.b, p.nb);
        if (!depth) { trace_done(); return; }
        auto go = [&](const std::string & name, const std::function<void(Pair<M> &)> & f) {
            Step st(name);
            transition();
            Pair<M> q = p;
            f(q);
            dfs(q, depth - 1);
        };
        for (size_t v = 0; v < 2; ++v) {
            for (int k : {1, 300, 70000}) go(MC_S("A.add_repeated(#" << v << ", x" << k << ")"), [&](Pair<M> & q) { typename M::Value x = vals[v]; q.a.add_repeated_value(s, x, k, rng); q.na[v] += k; });
            if (p.na[v] > 0) go(MC_S("A.remove(#" << v << ")"), [&](Pair<M> & q) { typename M::Value x = vals[v]; q.a.remove_value(s, x, rng); --q.na[v]; });
        }
        go("A.add(#1)", [&](Pair<M> & q) { typename M::Value x = vals[1]; q.a.add_value(s, x, rng); ++q.na[1]; });
        go("A.merge(B)", [&](Pair<M> & q) { q.a.merge(s, q.b, rng); for (size_t i = 0; i < q.na.size(); ++i) q.na[i] += q.nb[i]; });
        go("B.merge(A)", [&](Pair<M> & q) { q.b.merge(s, q.a, rng); for (size_t i = 0; i < q.na.size(); ++i) q.nb[i] += q.na[i]; });
    }
    void run(const typename M::Shared & shared, int si) {
        s = shared;
        vals = T::values(s);
        Context c(MC_S(T::name() << " hyperparameters #" << si << ", large groups"));
        Pair<M> p;
        p.a.init(s, rng); p.b.init(s, rng);
        p.na.assign(vals.size(), 0); p.nb = p.na;
        bool dear = sizeof(typename M::Shared) > 500;
        dfs(p, thorough() ? 5 : dear ? 3 : 4);
    }
};
template<class M> void big_job(int si) { Big<M>().run(Tr<M>::shareds()[si], si); }
