// Explores clustering mixtures next to a plain vector of group sizes (C06, C07).
#pragma once
#include "mc.hpp"
#include <random>
#include <memory>
#include <iostream>
#include <mutex>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <distributions/clustering.hpp>
namespace mc {
using namespace distributions;
using std::vector;
typedef Clustering<int>::PitmanYor PY;
typedef Clustering<int>::LowEntropy LE;
typedef vector<int> Sizes;
inline std::string vss(const Sizes & v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += MC_S((i ? "," : "") << v[i]); return s + "]"; }

struct Reference {   // the definition: sizes in packed order
    Sizes n;
    bool add(size_t g, int k) { bool created = n[g] == 0; n[g] += k; if (created) n.push_back(0); return created; }
    bool remove(size_t g, int k) {
        n[g] -= k;
        if (n[g]) return false;
        n[g] = n.back(); n.pop_back();
        return true;
    }
    int total() const { int t = 0; for (int x : n) t += x; return t; }
    int empties() const { int t = 0; for (int x : n) t += x == 0; return t; }
};
// log probabilities of the priors in double precision
inline double py_add(const PY & m, int size, int nonempty, int total, int empties) {
    double a = m.alpha, d = m.d;
    return size ? std::log((size - d) / (total + a)) : std::log((a + d * nonempty) / (total + a) / empties);
}
inline double le_postpred(const LE & m, double n) {
    // the documented approximation (derivations/clustering.py postpred)
    double N = m.dataset_size;
    return std::log(N / n) * (.45 - .1 / n - .1 / N);
}
inline double le_add(const LE & m, int size, int, int total, int empties) {
    if (!size) return -std::log((double)empties) + (total + 1 < m.dataset_size ? le_postpred(m, total + 1) : 0);
    return (size + 1.0) * std::log(size + 1.0) - size * std::log((double)size);
}
struct COp { int kind; size_t g; int k; };   // 0 add 1 remove 2 re-init in place 3 init with model g 4 init with other sizes g
inline const vector<Sizes> & restarts() { static const vector<Sizes> r = {{0, 0}, {1, 0, 2}, {2, 0, 0, 1}}; return r; }
inline std::string cop_s(const COp & o) {
    return o.kind == 2 ? std::string("init") : o.kind == 3 ? MC_S("init with the parameters of setting " << o.g) : o.kind == 4 ? MC_S("counts() = " << vss(restarts()[o.g]) << "; init") : MC_S((o.kind ? "remove_value(" : "add_value(") << o.g << (o.k == 1 ? std::string(")") : MC_S(", count=" << o.k << ")"))); }

// Check: void operator()(const Mix &, const Reference &, const Model &)
template<class Model, class Mix, class Check> struct ClusterExplorer {
    Model model;
    Check check;
    int max_total, max_groups;
    vector<int> ks;
    vector<Model> others;          // settings that init may switch to
    vector<Sizes> starts = {{0}, {0, 0}, {3, 0}, {0, 1}, {1, 0, 2}, {2, 1, 0}, {0, 2, 0, 1}, {0, 0, 0}};
    struct St { Mix mix; Reference ref; size_t m; };
    const Model & the(const St & s) { return s.m ? others[s.m - 1] : model; }

    St start(const Sizes & n) {
        St s;
        s.ref.n = n;
        s.m = 0;
        s.mix.counts() = n;
        s.mix.init(model);
        return s;
    }
    vector<COp> ops(const St & s) {
        vector<COp> r;
        int t = s.ref.total();
        for (size_t g = 0; g < s.ref.n.size(); ++g) for (int k : ks) {
            if (t + k <= max_total && ((int)s.ref.n.size() < max_groups || s.ref.n[g])) r.push_back({0, g, k});
            if (s.ref.n[g] >= k) r.push_back({1, g, k});
        }
        r.push_back({2, 0, 0});
        for (size_t m = 0; m <= others.size(); ++m) if (m != s.m) r.push_back({3, m, 0});
        if (others.size()) for (size_t i = 0; i < restarts().size(); ++i) if (s.ref.n != restarts()[i]) {
            Reference q; q.n = restarts()[i];
            if (q.total() <= max_total) r.push_back({4, i, 0});
        }
        return r;
    }
    void apply(St & s, const COp & o) {
        transition();
        if (o.kind == 3) s.m = o.g;
        const Model & model = the(s);
        if (o.kind == 4) { s.ref.n = restarts()[o.g]; s.mix.counts() = s.ref.n; }
        if (o.kind >= 2) { s.mix.init(model); return; }
        bool got = o.kind == 0 ? (o.k == 1 ? s.mix.add_value(model, o.g) : s.mix.add_value(model, o.g, o.k))
                               : (o.k == 1 ? s.mix.remove_value(model, o.g) : s.mix.remove_value(model, o.g, o.k));
        bool want = o.kind == 0 ? s.ref.add(o.g, o.k) : s.ref.remove(o.g, o.k);
        eval();
        if (got != want) violation("flag", MC_S(cop_s(o) << " reports " << got << ", sizes afterwards should be " << vss(s.ref.n)));
    }
    bool usable(const St & s) {   // a mixture whose bookkeeping broke must not be driven further
        return s.mix.counts() == s.ref.n;
    }
    void dfs(const St & s, int depth) {
        check(s.mix, s.ref, the(s));
        if (!usable(s)) return;
        if (!depth) { trace_done(); return; }
        for (auto & o : ops(s)) {
            Step st(cop_s(o));
            St q = s;
            apply(q, o);
            dfs(q, depth - 1);
        }
    }
    std::string key(const St & s) {
        std::string k = vss(s.ref.n) + vss(s.mix.counts());
        std::set<size_t> e(s.mix.empty_groupids().begin(), s.mix.empty_groupids().end());
        for (size_t i : e) k += MC_S("e" << i);
        VectorFloat v(s.mix.counts().size());
        s.mix.score_value(the(s), v);
        k += MC_S("m" << s.m);
        k.append((const char *)v.data(), 4 * v.size());
        return k;
    }
    void bfs(const vector<Sizes> & starts, int depth, size_t cap) {
        std::unordered_set<std::string> seen;
        struct Node { St s; vector<COp> path; Sizes from; };
        std::deque<Node> q;
        for (auto & n : starts) { q.push_back({start(n), {}, n}); seen.insert(key(q.back().s)); }
        bool closed = true;
        int done = 0;
        while (!q.empty()) {
            Node n = q.front(); q.pop_front();
            if ((int)n.path.size() >= depth) { closed = false; continue; }
            done = n.path.size();
            for (auto & o : ops(n.s)) {
                Node m = n;
                m.path.push_back(o);
                store().path.assign(1, MC_S("counts = " << vss(n.from) << "; init"));
                for (auto & p : m.path) store().path.push_back(cop_s(p));
                apply(m.s, o);
                if (!seen.insert(key(m.s)).second) continue;
                state(); trace_done();
                check(m.s.mix, m.s.ref, the(m.s));
                if (!usable(m.s)) continue;
                if (seen.size() < cap) q.push_back(m); else closed = false;
            }
        }
        store().path.clear();
        extra_max("bfs_depth", done + 1);
        extra_max("bfs_closed_state_space", closed);
    }
    // a long life: many groups made one by one, grown by runs, then emptied in one of several orders
    bool step(St & s, const COp & o) {
        store().path.push_back(cop_s(o));
        apply(s, o);
        state();
        bool ok = usable(s);
        if (ok || s.ref.n.size() < 3) check(s.mix, s.ref, the(s));
        if (!ok) violation("sizes", MC_S("sizes " << vss(s.mix.counts()) << ", should be " << vss(s.ref.n)));
        if (store().path.size() > 8) store().path.erase(store().path.begin() + 1);
        return ok;
    }
    void life(int groups, size_t empties, int order, int rows = 0) {
        auto old = store().path;
        St s = start(Sizes(empties, 0));
        store().path.assign(1, MC_S(empties << " empty groups; init; grown to " << groups << " groups of " << (rows ? "many values" : "1 to 3 values") << ", then emptied in order " << order << "; ..."));
        bool ok = true;
        auto empty_at = [&](int which) {   // first, last or middle empty group
            vector<size_t> e;
            for (size_t g = 0; g < s.ref.n.size(); ++g) if (!s.ref.n[g]) e.push_back(g);
            return which == 0 ? e.front() : which == 1 ? e.back() : e[e.size() / 2];
        };
        for (int i = 0; ok && i < groups; ++i) {
            size_t g = empty_at(order % 3);
            ok = step(s, {0, g, 1});
            if (ok && i % 3 == 1 && s.ref.total() < max_total) ok = step(s, {0, g, ks.back() < 100 ? ks.back() : 1});
            if (ok && i % 7 == 6) { size_t h = (size_t)i / 2; if (s.ref.n[h]) ok = step(s, {0, h, 1}); }
            if (ok && i % 11 == 10) { size_t h = (size_t)i / 3; if (s.ref.n[h]) ok = step(s, {1, h, s.ref.n[h]}); }
        }
        for (int i = 0; ok && i < rows; ++i) {   // grow a few groups far
            size_t g = i % std::min<size_t>(3, s.ref.n.size());
            if (!s.ref.n[g]) g = 0;
            ok = step(s, {0, g, 1});
        }
        for (int i = 0; ok && s.ref.total() > 0; ++i) {
            vector<size_t> f;
            for (size_t g = 0; g < s.ref.n.size(); ++g) if (s.ref.n[g]) f.push_back(g);
            size_t g = order == 0 ? f.front() : order == 1 ? f.back() : order == 2 ? f[f.size() / 2] : f[(i * 7) % f.size()];
            ok = step(s, {1, g, i % 2 && s.ref.n[g] > 1 ? s.ref.n[g] : 1});
            if (ok && i % 5 == 4 && s.ref.total() < max_total) ok = step(s, {0, empty_at(2), 1});
        }
        if (ok) ok = step(s, {2, 0, 0});
        trace_done();
        store().path = old;
    }
    void lives(int groups, int rows) {
        for (int order = 0; order < 4; ++order) for (size_t e : {1u, 3u}) life(groups, e, order);
        life(groups / 2, groups / 2, 3);
        life(3, 1, 0, rows); life(1, 2, 1, rows);
    }
    void run(int dfs_depth, int bfs_depth, size_t cap) {
        for (auto & n : starts) {
            Reference r; r.n = n;
            if (r.total() > max_total) continue;
            Step st(MC_S("counts = " << vss(n) << "; init"));
            dfs(start(n), dfs_depth - (n.size() > 2));
        }
        vector<Sizes> ok;
        for (auto & n : starts) { Reference r; r.n = n; if (r.total() <= max_total) ok.push_back(n); }
        bfs(ok, bfs_depth, cap);
    }
};
}  // namespace mc
