// C20: sparse maps, sparse counters and packed vectors against std::map and lists.
#include "mc.hpp"
#include <iostream>
#include <memory>
#include <mutex>
#include <distributions/sparse.hpp>
#include <distributions/vector.hpp>
using namespace mc;
using namespace distributions;
template<class K> std::vector<K> keys();
template<> std::vector<uint32_t> keys() { return {0, 5, 4294967295u}; }
template<> std::vector<int> keys() { return {-1, 0, 13}; }
template<> std::vector<uint64_t> keys() { return {0, 1ull << 32, ~0ull}; }

// ------------------------------------------------------------------ Sparse_
template<class K, class V> struct MapRun {
    typedef Sparse_<K, V> S;
    typedef std::map<K, V> R;
    std::vector<K> ks = keys<K>();
    static V val(int i) { return V(i + 1); }
    void check(const S & s, const R & r, const char * what) {
        eval();
        bool ok = s.size() == r.size();
        size_t n = 0;
        for (auto & p : s) { ++n; auto i = r.find(p.first); ok = ok && i != r.end() && i->second == p.second; }
        ok = ok && n == r.size();
        for (auto k : ks) { ok = ok && s.contains(k) == (r.count(k) > 0); if (r.count(k)) ok = ok && s.contains(k) && s.get(k) == r.at(k); }
        if (!ok) violation("sparse-map", MC_S("the sparse map differs from a plain map " << what << ": " << show(s) << " instead of " << show(r)));
    }
    template<class X> static std::string show(const X & x) { std::string s = "{"; for (auto & p : x) s += MC_S(p.first << ": " << p.second << ", "); return s + "}"; }
    // every operation that is legal now; calls f(name, apply to both)
    void ops(const R & r, std::function<void(const std::string &, std::function<void(S &, R &)>)> f) {
        for (auto k : ks) {
            if (!r.count(k)) {
                f(MC_S("add(" << k << ")"), [k](S & s, R & r) { V & v = s.add(k); if (!(v == V())) violation("sparse-map", "add(key) does not give a fresh value"); v = val(7); r[k] = val(7); });
                for (int i = 0; i < 2; ++i) f(MC_S("add(" << k << ", #" << i << ")"), [k, i](S & s, R & r) { s.add(k, val(i)); r[k] = val(i); });
            } else {
                f(MC_S("remove(" << k << ")"), [k](S & s, R & r) { s.remove(k); r.erase(k); });
                f(MC_S("pop(" << k << ")"), [k](S & s, R & r) { V v = s.pop(k); if (!(v == r[k])) violation("sparse-map", "pop returns another value"); r.erase(k); });
                f(MC_S("set(" << k << ")"), [k](S & s, R & r) { s.set(k, val(3)); r[k] = val(3); });
                f(MC_S("get(" << k << ") ="), [k](S & s, R & r) { s.get(k) = val(4); r[k] = val(4); });
                f(MC_S("erase at(" << k << ")"), [k](S & s, R & r) { auto i = s.begin(); while (i->first != k) ++i; s.unsafe_erase(i); r.erase(k); });
            }
            f(MC_S("get_or_add(" << k << ")"), [k](S & s, R & r) { V & v = s.get_or_add(k); if (!(v == (r.count(k) ? r[k] : V()))) violation("sparse-map", "get_or_add gives another value"); v = val(9); r[k] = val(9); });
        }
        f("clear", [](S & s, R & r) { s.clear(); r.clear(); });
        f("copy", [](S & s, R & r) { S t(s), u; u = t; t.clear(); s = std::move(u); R x(r); r = x; });
    }
    void dfs(const S & s, const R & r, int depth) {
        state();
        if (!depth) { trace_done(); return; }
        ops(r, [&](const std::string & name, std::function<void(S &, R &)> op) {
            Step st(name);
            S t(s); R q(r);
            transition();
            op(t, q);
            check(t, q, "after an operation");
            check(s, r, "whose copy was changed");
            dfs(t, q, depth - 1);
        });
    }
};

// ------------------------------------------------------------ SparseCounter
template<class K> struct CounterRun {
    typedef SparseCounter<K, int> S;
    typedef std::map<K, int> R;   // no zeros
    std::vector<K> ks = keys<K>();
    struct Two { S a, b; };
    struct Ref { R a, b; bool operator<(const Ref & o) const { return std::tie(a, b) < std::tie(o.a, o.b); } };
    static void radd(R & r, K k, int n) { if (!(r[k] += n)) r.erase(k); }
    void check(const S & s, const R & r, const char * which) {
        eval();
        bool ok = true;
        int total = 0;
        size_t n = 0;
        for (auto & p : s) { ++n; auto i = r.find(p.first); ok = ok && p.second != 0 && i != r.end() && i->second == p.second; }
        ok = ok && n == r.size();
        for (auto & p : r) total += p.second;
        for (auto k : ks) ok = ok && s.get_count(k) == (r.count(k) ? r.at(k) : 0);
        if (!ok) violation("sparse-counter", MC_S("counter " << which << " holds " << MapRun<K, int>::show(s) << " instead of " << MapRun<K, int>::show(r)));
        if (s.get_total() != total) violation("sparse-counter-total", MC_S("counter " << which << " has total " << s.get_total() << " instead of " << total));
    }
    typedef std::function<void(Two &, Ref &)> Op;
    void ops(const Ref & now, std::function<void(const std::string &, Op)> f, bool few) {
        for (int side = 0; side < 2; ++side) {
            const char * nm = side ? "B" : "A";
            auto pick = [side](Two & t) -> S & { return side ? t.b : t.a; };
            auto rpick = [side](Ref & t) -> R & { return side ? t.b : t.a; };
            const R & r = side ? now.b : now.a;
            for (auto k : ks) {
                for (int n : few ? std::vector<int>{1, -1, 2} : std::vector<int>{1, 2, -1, -2, 0, 3})
                    f(MC_S(nm << ".add(" << k << ", " << n << ")"), [=](Two & t, Ref & q) { int got = n == 1 ? pick(t).add(k) : pick(t).add(k, n); radd(rpick(q), k, n); R & m = rpick(q); if (got != (m.count(k) ? m[k] : 0)) violation("sparse-counter-add", MC_S("add returns " << got)); });
                f(MC_S(nm << ".remove(" << k << ")"), [=](Two & t, Ref & q) { int got = pick(t).remove(k); radd(rpick(q), k, -1); R & m = rpick(q); if (got != (m.count(k) ? m[k] : 0)) violation("sparse-counter-add", MC_S("remove returns " << got)); });
                if (!r.count(k)) for (int n : {0, 4}) f(MC_S(nm << ".init_count(" << k << ", " << n << ")"), [=](Two & t, Ref & q) { pick(t).init_count(k, n); if (n) rpick(q)[k] = n; });
                for (auto j : ks) if (!r.count(k) || !r.count(j) || k == j) f(MC_S(nm << ".rename(" << k << ", " << j << ")"), [=](Two & t, Ref & q) { pick(t).rename(k, j); R & m = rpick(q); if (m.count(k)) { int v = m[k]; m.erase(k); m[j] = v; } });
            }
            f(MC_S(nm << ".merge(other)"), [=](Two & t, Ref & q) { (side ? t.b : t.a).merge(side ? t.a : t.b); R o = side ? q.a : q.b; for (auto & p : o) radd(rpick(q), p.first, p.second); });
            f(MC_S(nm << ".clear"), [=](Two & t, Ref & q) { pick(t).clear(); rpick(q).clear(); });
            f(MC_S(nm << " = copy of other"), [=](Two & t, Ref & q) { S c(side ? t.a : t.b); pick(t) = c; rpick(q) = side ? q.a : q.b; });
        }
    }
    void step(const Two & t, const Ref & q, Op op, Two & u, Ref & p) {
        u = t; p = q;
        transition();
        op(u, p);
        check(u.a, p.a, "A");
        check(u.b, p.b, "B");
    }
    void dfs(const Two & t, const Ref & q, int depth) {
        if (!depth) { trace_done(); return; }
        ops(q, [&](const std::string & name, Op op) {
            Step s(name);
            Two u; Ref p;
            step(t, q, op, u, p);
            dfs(u, p, depth - 1);
        }, depth < 3);
    }
    // breadth-first over contents: the counts are all there is to a counter
    void bfs(size_t cap) {
        struct N { Two t; Ref q; std::vector<std::string> path; };
        std::vector<N> queue{{Two(), Ref(), {}}};
        std::set<Ref> seen{Ref()};
        for (size_t i = 0; i < queue.size() && seen.size() < cap; ++i) {
            state();
            N n = queue[i];
            store().path = n.path;
            ops(n.q, [&](const std::string & name, Op op) {
                Step s(name);
                Two u; Ref p;
                step(n.t, n.q, op, u, p);
                for (auto * m : {&p.a, &p.b}) for (auto & e : *m) if (std::abs(e.second) > 4) return;
                if (seen.insert(p).second) { auto path = n.path; path.push_back(name); queue.push_back({u, p, path}); }
            }, false);
            store().path.clear();
        }
        extra("counter_states", seen.size());
    }
};
// many keys at once: growth, rehashing, colliding hashes
static void job_many() {
    for (uint32_t stride : {1u, 2u, 64u, 1009u, 65536u, 1u << 20}) {
        SparseCounter<uint32_t, int> c, d; std::map<uint32_t, int> r, q;
        Sparse_<uint32_t, float> m; std::map<uint32_t, float> rm;
        const int N = 2000;
        for (int i = 0; i < N; ++i) {
            uint32_t k = i * stride, k2 = (i * 7 % N) * stride;
            c.add(k, i % 5 - 2); if (i % 5 != 2) r[k] = i % 5 - 2;
            d.add(k2, 1 + i % 3); q[k2] += 1 + i % 3;
            m.get_or_add(k) = i; rm[k] = i;
            if (i % 3 == 2) { uint32_t j = (i / 2) * stride; m.remove(j + 0) ; rm.erase(j); m.add(j, -1); rm[j] = -1; if (i % 2) { m.pop(j); rm.erase(j); m.get_or_add(j) = 2; rm[j] = 2; } }
            transition(3);
        }
        c.merge(d);
        for (auto & p : q) { r[p.first] += p.second; if (!r[p.first]) r.erase(p.first); }
        long total = 0; size_t n = 0; bool ok = true;
        for (auto & p : r) { total += p.second; ok = ok && c.get_count(p.first) == p.second; }
        for (auto & p : c) { ++n; ok = ok && p.second; }
        eval(); state(N);
        if (!ok || n != r.size() || c.get_total() != total) violation("sparse-counter-many", MC_S("2000 keys at stride " << stride << ": total " << c.get_total() << " instead of " << total));
        ok = m.size() == rm.size();
        for (auto & p : rm) ok = ok && m.contains(p.first) && m.get(p.first) == p.second;
        if (!ok) violation("sparse-map-many", MC_S("2000 keys at stride " << stride));
        trace_done();
    }
}

// ------------------------------------------------------------------ Packed_
template<class T> T item(int i);
template<> int item(int i) { return i; }
template<> std::string item(int i) { return std::string(i % 2 ? 40 : 3, 'a' + i % 26) + std::to_string(i); }
template<> std::shared_ptr<int> item(int i) { return std::make_shared<int>(i); }
static std::string show(int i) { return std::to_string(i); }
static std::string show(const std::string & s) { return s; }
static std::string show(const std::shared_ptr<int> & s) { return s ? std::to_string(*s) : "null"; }
template<class T> void packed(const Packed_<T> & v, const std::vector<T> & r, int depth, int next) {
    state(); eval();
    if (v.size() != r.size() || !std::equal(r.begin(), r.end(), v.begin())) {
        std::string a, b;
        for (auto & x : v) a += show(x) + " "; for (auto & x : r) b += show(x) + " ";
        violation("packed", "packed vector holds [ " + a + "] instead of [ " + b + "]");
    }
    if (!depth) { trace_done(); return; }
    for (int op = 0; op < 2; ++op) { Packed_<T> w(v); std::vector<T> q(r); Step s(op ? "packed_add()" : "packed_add(x)"); transition(); T x = item<T>(next); if (op) { T & slot = w.packed_add(); if (!(slot == T())) violation("packed", "packed_add() gives a used element"); slot = x; } else w.packed_add(x); q.push_back(x); packed(w, q, depth - 1, next + 1); }
    for (size_t pos = 0; pos < r.size(); ++pos) { Packed_<T> w(v); std::vector<T> q(r); Step s(MC_S("packed_remove(" << pos << ")")); transition(); w.packed_remove(pos); q[pos] = q.back(); q.pop_back(); packed(w, q, depth - 1, next); }
}
int main(int argc, char ** argv) {
    Jobs jobs;
    const int d = thorough() ? 1 : 0;
    jobs.push_back({"map/uint32-float", [=] { MapRun<uint32_t, float> m; m.dfs({}, {}, 4 + (opt().tier == "thorough")); }});
    jobs.push_back({"map/int-string", [=] { MapRun<int, long> m; m.dfs({}, {}, 4 + (opt().tier == "thorough")); }});
    jobs.push_back({"map/uint64-int", [=] { MapRun<uint64_t, int> m; m.dfs({}, {}, 4); }});
    (void)d;
    jobs.push_back({"counter/uint32", [=] { CounterRun<uint32_t> c; c.dfs({}, {}, 3 + (opt().tier == "thorough")); }});
    jobs.push_back({"counter/int", [=] { CounterRun<int> c; c.dfs({}, {}, 3); }});
    jobs.push_back({"counter-bfs/uint32", [=] { CounterRun<uint32_t> c; c.bfs(thorough() ? 200000 : 12000); }});
    jobs.push_back({"counter-bfs/int", [=] { CounterRun<int> c; c.bfs(thorough() ? 200000 : 12000); }});
    jobs.push_back({"many", job_many});
    jobs.push_back({"packed/int", [=] { packed<int>({}, {}, thorough() ? 9 : 8, 1); }});
    jobs.push_back({"packed/string", [=] { packed<std::string>({}, {}, thorough() ? 9 : 7, 1); }});
    jobs.push_back({"packed/shared_ptr", [=] { packed<std::shared_ptr<int>>({}, {}, 7, 1); }});
    return main_(argc, argv, jobs);
}
