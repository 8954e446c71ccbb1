// C19: threads that score the same objects at the same time.
#pragma once
#include "sched.hpp"
#include "models.hpp"
#include "clustering_core.hpp"
namespace mc {
typedef std::function<vector<float>()> ScoringOp;
struct Named { std::string name; ScoringOp op; bool many; };
struct Together {
    vector<Named> ops;
    void add(const std::string & name, ScoringOp op) { ops.push_back({name, op, false}); }
    void run(const vector<vector<int>> & threads, int stops, long most) {
        std::string name;
        for (auto & t : threads) { name += name.empty() ? "{" : " || {"; for (int i : t) name += (name.back() == '{' ? "" : " then ") + ops[i].name; name += "}"; }
        Context c(store().context + " " + name);
        state();
        sched::Program p;
        vector<vector<float>> expected;
        for (auto & t : threads) {
            p.threads.push_back([this, t] { vector<float> out; for (int i : t) { auto r = ops[i].op(); out.insert(out.end(), r.begin(), r.end()); } return out; });
            auto o = sched::alone(nullptr, p.threads.back());
            if (!o.problem.empty()) { violation("alone", "a single thread: " + o.problem); return; }
            expected.push_back(o.results[0]);
        }
        auto sees = [&](const sched::Outcome & o, const std::string & schedule) {
            transition(); eval();
            if (!o.problem.empty()) { violation(o.problem.substr(0, 9), o.problem + "; " + schedule); return false; }
            for (size_t i = 0; i < threads.size(); ++i)
                if (o.results[i].size() != expected[i].size() || memcmp(o.results[i].data(), expected[i].data(), 4 * expected[i].size())) { violation("scores", MC_S("thread " << i << " gets other scores than alone; " << schedule)); return false; }
            return true;
        };
        // first every order of the synchronisations (if there are any), with the race detector
        auto st = sched::explore_all(p, 0, most, sees);
        if (store().violations.size()) return;
        // then one preemption, at evenly spaced accesses or at all of them
        const long accesses = st.accesses / std::max(1l, st.schedules);
        auto st2 = sched::explore_all(p, std::max<long>(1, accesses / stops), 4 * stops + 50, sees);
        trace_done(st.schedules + st2.schedules);
        extra("schedules", st.schedules + st2.schedules); extra("memory_accesses_checked", st.accesses + st2.accesses); extra("synchronisations", st.sync);
        extra("sched_points", st2.points);
    }
    void pairs(int stops, long most) {
        const int n = ops.size();
        for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) run({{i}, {j}}, stops, most);
        for (int i = 0; i < n; ++i) { const int j = (i + 1) % n, k = (i + 3) % n; run({{i, j}, {k, i}}, stops, most); run({{i}, {j}, {i}}, stops, most); }
        if (thorough()) for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) for (int k = j; k < n; ++k) run({{i}, {j}, {k}}, stops / 4 + 1, most);
    }
};
template<class M> struct Scorings {
    typedef Tr<M> T; typedef typename M::Value Value;
    typename M::Shared shared, other; std::deque<Value> vals;
    struct Mixes;
    template<class Mix> static vector<float> scores(const Mix & m, const typename M::Shared & sh, const Value & v) { VectorFloat f(m.groups().size()); for (auto & x : f) x = .25f; rng_t r; m.score_value(sh, v, f, r); return vector<float>(f.begin(), f.end()); }
    template<class Mix> void mixture(Together & t, const std::string & name, Mix & m, const vector<Bag> & bags, bool data) {
        rng_t r;
        for (auto & b : bags) m.groups().push_back(fresh<M>(shared, b));
        m.init(shared, r);
        const auto & sh = shared; const Mix & c = m;
        for (size_t v = 0; v < std::min<size_t>(2, vals.size()); ++v) { const Value & x = vals[v]; t.add(MC_S(name << ".score_value(#" << v << ")"), [&sh, &c, &x] { return scores(c, sh, x); }); }
        const Value & x = vals.back();
        t.add(name + ".score_value_group", [&sh, &c, &x] { rng_t r; vector<float> o; for (size_t g = 0; g < c.groups().size(); ++g) o.push_back(c.score_value_group(sh, g, x, r)); return o; });
        if (data) {
            t.add(name + ".score_data", [&sh, &c] { rng_t r; return vector<float>{c.score_data(sh, r)}; });
            const auto & ot = other;
            t.add(name + ".score_data_grid", [&sh, &ot, &c] { rng_t r; VectorFloat f(3); c.score_data_grid({sh, ot, sh}, f, r); return vector<float>(f.begin(), f.end()); });
        }
    }
    template<class V> static float number(const V & v) { return v; }
    template<class F, int D> static float number(const Eigen_::Matrix<F, D, 1> & v) { return v.sum(); }
    typename M::Group group;
    void groups(Together & t) {
        group = fresh<M>(shared, Bag(vals.size(), 2));
        const auto & g = group; const auto & sh = shared; const auto & vs = vals;
        t.add("group.score_value", [&] { rng_t r; vector<float> o; for (auto & v : vs) o.push_back(g.score_value(sh, v, r)); return o; });
        t.add("group.score_data", [&] { rng_t r; return vector<float>{g.score_data(sh, r)}; });
        t.add("scorer", [&] { rng_t r; typename M::Scorer s; s.init(sh, g, r); return vector<float>{s.eval(sh, vs[0], r), s.eval(sh, vs.back(), r)}; });
        t.add("sampler", [&] { rng_t r(5); typename M::Sampler s; s.init(sh, g, r); auto v = s.eval(sh, r); return vector<float>{number(v)}; });
        t.add("group.sample_value", [&] { rng_t r(9); return vector<float>{number(g.sample_value(sh, r))}; });
    }
    void run(int si, bool data, int stops, long most) {
        auto all = T::shareds();
        shared = all[si % all.size()]; other = all[(si + 1) % all.size()];
        for (auto v : T::values(shared)) vals.push_back(v);
        if (vals.size() > 3) vals.resize(3);
        Together t;
        rest(t, data);
        Context c(T::name());
        t.pairs(stops, most);
    }
    template<class MM = M> typename std::enable_if<Tr<MM>::has_mixture>::type rest(Together & t, bool data) {
        const size_t n = T::values(shared).size();
        static typename MM::FastMixture a, b; static typename MM::SmallMixture s;
        Bag one(n, 0), two(n, 1), three(n, 0); one[0] = 2; three[n - 1] = 1;
        mixture(t, "A", a, {one, two, three}, data);
        mixture(t, "B", b, {two, Bag(n, 0), one, one, three, two, Bag(n, 0)}, data);
        mixture(t, "S", s, {two, one}, false);
        groups(t);
    }
    template<class MM = M> typename std::enable_if<!Tr<MM>::has_mixture>::type rest(Together & t, bool) { groups(t); }
};
template<class M> void add_scorings(Jobs & jobs, bool data, int settings) { for (int i = 0; i < settings; ++i) jobs.push_back({MC_S(Tr<M>::name() << "/" << i), [=] { auto s = new Scorings<M>; s->run(i, data, thorough() ? 300 : 25, thorough() ? 5000 : 200); }}); }
}
