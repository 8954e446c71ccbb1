// C22: saved state restores a model that behaves identically.
#pragma once
#include "models.hpp"
#include <distributions/clustering.hpp>
using namespace mc;

inline std::string canon(const google::protobuf::Message & m) { return m.SerializeAsString(); }
inline std::string canon(const pb::DirichletProcessDiscrete::Shared & m) {
    std::string r = MC_S(m.gamma() << ',' << m.alpha() << ',' << m.values_size() << ',' << m.betas_size() << ',' << m.counts_size());
    std::map<uint32_t, std::string> s;
    for (int i = 0; i < m.values_size() && i < m.betas_size() && i < m.counts_size(); ++i) s[m.values(i)] += MC_S("|" << m.values(i) << ':' << m.betas(i) << ':' << m.counts(i));
    for (auto & p : s) r += p.second;
    return r;
}
inline std::string canon(const pb::DirichletProcessDiscrete::Group & m) { return fields_s(fields(m)); }
template<class Msg, class X> Msg dumped(const X & x) { Msg m; x.protobuf_dump(m); return m; }
template<class Msg> Msg wire(const Msg & m) {   // through bytes
    std::string b; Msg r;
    if (!m.SerializeToString(&b) || !r.ParseFromString(b)) violation("wire", "a dumped message does not survive serialization");
    return r;
}
template<class Msg, class X> bool throws_on(X x, const Msg & m) { try { x.protobuf_load(m); } catch (std::exception &) { return true; } return false; }

template<class M> struct RoundTrip {
    typedef Tr<M> T;
    typedef typename M::Shared Shared; typedef typename M::Group Group; typedef typename M::Value Value;
    typedef typename T::Msg::Shared SMsg; typedef typename T::Msg::Group GMsg;
    vector<Shared> all = T::shareds();
    Shared shared;
    vector<Value> vals;
    vector<Group> used;      // objects to load into
    rng_t rng;
    struct Obs { std::string dump, raw; vector<float> scores; float data; std::string why; };
    bool scores_ok(const Bag & n) { return nonneg(n); }
    Obs observe(const Group & g, const Bag & n, bool sampling) {
        Obs o{canon(dumped<GMsg>(g)), T::raw(g), {}, 0, {}};
        if (!scores_ok(n)) return o;
        for (auto v : vals) {
            Value x = v;
            o.scores.push_back(g.score_value(shared, x, rng));
            typename M::Scorer s; s.init(shared, g, rng); o.scores.push_back(s.eval(shared, x, rng));
        }
        o.data = g.score_data(shared, rng);
        if (sampling) {   // same generator state, same draw
            rng_t r(12345);
            o.scores.push_back(number(g.sample_value(shared, r)));
            r.discard(3); typename M::Sampler s; s.init(shared, g, r); o.scores.push_back(number(s.eval(shared, r))); o.scores.push_back(number(s.eval(shared, r)));
        }
        return o;
    }
    template<class V> static float number(const V & v) { return v; }
    template<class F, int D> static float number(const Eigen_::Matrix<F, D, 1> & v) { return v.sum(); }
    void same(const Obs & a, const Obs & b, const std::string & what) {
        eval();
        if (a.dump != b.dump) violation(MC_S(T::name() << "-content"), what + " dumps different content");
        if (a.raw != b.raw) violation(MC_S(T::name() << "-content"), what + " holds " + b.raw + " instead of " + a.raw);
        for (size_t i = 0; i < a.scores.size(); ++i) if (!close(a.scores[i], b.scores[i], 1e-5, 3e-6) && a.scores[i] != b.scores[i]) { violation(MC_S(T::name() << "-behaviour"), MC_S(what << " scores or samples " << b.scores[i] << " instead of " << a.scores[i] << " (query " << i << ")")); break; }
        if (!close(a.data, b.data, 1e-5, 3e-6)) violation(MC_S(T::name() << "-behaviour"), MC_S(what << " has score_data " << b.data << " instead of " << a.data));
    }
    struct Op { int kind; size_t v; };
    vector<Op> ops() {
        vector<Op> r;
        for (size_t v = 0; v < std::min<size_t>(vals.size(), 3); ++v) { r.push_back({0, v}); r.push_back({1, v}); r.push_back({2, v}); }
        r.push_back({3, 0}); r.push_back({4, 0});
        return r;
    }
    bool enabled(const Op & o, const Bag & n) { return o.kind != 2 || n[o.v] > (T::debt ? -1 : 0); }
    void apply(Group & g, Bag & n, const Op & o) {
        Value x = vals[o.v];
        switch (o.kind) {
            case 0: g.add_value(shared, x, rng); ++n[o.v]; break;
            case 1: g.add_repeated_value(shared, x, 5, rng); n[o.v] += 5; break;
            case 2: g.remove_value(shared, x, rng); --n[o.v]; break;
            case 3: { Group h; h.init(shared, rng); for (size_t i = 0; i < vals.size(); ++i) { Value y = vals[i]; h.add_value(shared, y, rng); ++n[i]; } g.merge(shared, h, rng); break; }
            case 4: g.init(shared, rng); n.assign(n.size(), 0); break;
        }
        transition();
    }
    std::string op_s(const Op & o) { static const char * s[] = {"add", "add x5", "remove", "merge", "init"}; return MC_S(s[o.kind] << "(#" << o.v << ")"); }
    void load_and_go_on(const Group & g, const Bag & n, int more) {
        GMsg m = dumped<GMsg>(g);
        { GMsg again = dumped<GMsg>(used[0]); g.protobuf_dump(again); eval(); if (canon(again) != canon(m)) violation(MC_S(T::name() << "-dump-into-used"), "dumping into a message in use gives other content"); }
        GMsg w = wire(m);
        const Obs now = observe(g, n, sampling());
        for (size_t u = 0; u <= used.size(); ++u) {
            Step st(u ? MC_S("save, load into used object " << u) : std::string("save, load into a fresh object"));
            Group h;
            if (u) h = used[u - 1];
            try { transition(); h.protobuf_load(w); } catch (std::exception & e) { violation(MC_S(T::name() << "-rejects-own-dump"), e.what()); continue; }
            same(now, observe(h, n, sampling()), "the loaded group");
            go_on(g, h, n, u <= 1 ? more : std::min(more, 1));
            if (T::has_mixture && nonneg(n)) mixture(g, h, n);
        }
    }
    static constexpr bool sampling() { return !T::debt; }   // the process's samples follow the order of its table
    void go_on(const Group & a, const Group & b, const Bag & n, int depth) {
        if (!depth) return;
        for (auto & o : ops()) {
            if (!enabled(o, n)) continue;
            Step st("then " + op_s(o));
            Group p(a), q(b); Bag x(n), y(n);
            apply(p, x, o); apply(q, y, o);
            same(observe(p, x, false), observe(q, y, false), "the loaded group, going on,");
            go_on(p, q, x, depth - 1);
        }
        {   // as the source of a merge
            Step st("then merged into another");
            Group p(used[0]), q(used[0]); Bag x(n); for (auto & c : x) c += 4;
            p.init(shared, rng); q.init(shared, rng);
            for (size_t i = 0; i < vals.size(); ++i) { Value v = vals[i]; for (auto * g : {&p, &q}) g->add_repeated_value(shared, v, 4, rng); }
            p.merge(shared, a, rng); q.merge(shared, b, rng); transition(2);
            same(observe(p, x, false), observe(q, x, false), "a group merged with the loaded one");
        }
    }
    template<class MM = M> typename std::enable_if<Tr<MM>::has_mixture>::type mixture(const Group & a, const Group & b, const Bag & n) {
        vector<float> r[2];
        for (int k = 0; k < 2; ++k) {
            typename MM::Mixture m;
            m.groups().push_back(k ? b : a); m.groups().push_back(fresh<M>(shared, Bag(vals.size(), 1)));
            m.init(shared, rng);
            Value v = vals[0];
            m.add_value(shared, 0, v, rng);
            for (auto x : vals) { Value y = x; AlignedFloats_ f(2); m.score_value(shared, y, f.ref(), rng); for (float z : f.v) r[k].push_back(z); }
            r[k].push_back(m.score_data(shared, rng));
        }
        eval();
        for (size_t i = 0; i < r[0].size(); ++i) if (!close(r[0][i], r[1][i], 1e-5, 3e-6)) { violation(MC_S(T::name() << "-mixture"), MC_S("a mixture of loaded groups scores " << r[1][i] << " instead of " << r[0][i])); break; }
    }
    template<class MM = M> typename std::enable_if<!Tr<MM>::has_mixture>::type mixture(const Group &, const Group &, const Bag &) {}
    struct AlignedFloats_ { VectorFloat v; explicit AlignedFloats_(size_t n) { v.resize(n, 0); } AlignedFloats ref() { return AlignedFloats(v.data(), v.size()); } };

    std::set<std::string> seen;
    void dfs(const Group & g, const Bag & n, int depth, int more) {
        if (seen.insert(T::raw(g)).second) { state(); load_and_go_on(g, n, more); }
        if (!depth) { trace_done(); return; }
        for (auto & o : ops()) {
            if (!enabled(o, n)) continue;
            Step st(op_s(o));
            Group h(g); Bag x(n);
            apply(h, x, o);
            dfs(h, x, depth - 1, more);
        }
    }
    void fill(int si) {
        shared = all[si];
        vals = T::values(shared);
        // fuller, emptier, from other hyperparameters (another dimension, other keys)
        used.push_back(fresh<M>(shared, Bag(vals.size(), 7)));
        used.push_back(fresh<M>(shared, Bag(vals.size(), 0)));
        for (size_t i = 0; i < all.size(); ++i) if (int(i) != si) used.push_back(fresh<M>(all[i], Bag(T::values(all[i]).size(), 3)));
        if (T::debt) { Group g = fresh<M>(shared, Bag(vals.size(), 0)); Value v = vals[0]; g.remove_value(shared, v, rng); used.push_back(g); }
    }
    void groups(int si, int depth, int more) {
        Context c(MC_S(T::name() << " hyperparameters #" << si));
        fill(si);
        Group g; g.init(shared, rng);
        dfs(g, Bag(vals.size(), 0), depth, more);
        Step st("2000 values first");
        Group h; h.init(shared, rng); Bag n(vals.size(), 0);
        for (int i = 0; i < 2000; ++i) { size_t k = i * i % vals.size(); Value v = vals[k]; h.add_value(shared, v, rng); ++n[k]; }
        state(); load_and_go_on(h, n, 1); trace_done();
        for (int copies : {300, 70000}) {
            if (!T::has_mixture && copies > 1000) continue;   // more directions than distinct rows: singular in float
            Step st2(MC_S("and " << copies << " copies of each"));
            for (size_t k = 0; k < vals.size(); ++k) { Value v = vals[k]; h.add_repeated_value(shared, v, copies, rng); n[k] += copies; }
            state(); load_and_go_on(h, n, 1); trace_done();
        }
    }
    // every hyperparameter vector, over every other
    void shareds(const vector<Shared> & more) {
        vector<Shared> list(all);
        list.insert(list.end(), more.begin(), more.end());
        for (size_t i = 0; i < list.size(); ++i) {
            Context c(MC_S(T::name() << " hyperparameters " << i));
            state();
            SMsg m = dumped<SMsg>(list[i]), w = wire(m);
            for (size_t j = 0; j <= list.size(); ++j) {
                Step st(j ? MC_S("loaded over hyperparameters " << j - 1) : std::string("loaded into a fresh object"));
                Shared s; if (j) s = list[j - 1];
                transition(); eval();
                try { s.protobuf_load(w); } catch (std::exception & e) { violation(MC_S(T::name() << "-shared-rejected"), e.what()); continue; }
                SMsg k; if (j) k = dumped<SMsg>(list[j - 1]);
                s.protobuf_dump(k);
                if (canon(k) != canon(m)) violation(MC_S(T::name() << "-shared"), "the loaded hyperparameters dump " + k.ShortDebugString() + " instead of " + m.ShortDebugString());
                // groups built and scored under both
                if (i >= all.size()) continue;
                vals = T::values(list[i]);
                for (int k2 = 0; k2 < 3; ++k2) {
                    Bag n(vals.size(), k2); n[0] += k2;
                    Group a = fresh<M>(list[i], n), b = fresh<M>(s, n);
                    Obs x, y;
                    shared = list[i]; x = observe(a, n, sampling()); shared = s; y = observe(b, n, sampling());
                    same(x, y, "a group under the loaded hyperparameters");
                }
                trace_done();
            }
        }
    }
    void reject(const char * what, bool ok) { eval(); transition(); if (!ok) violation(MC_S(T::name() << "-accepts-bad-shape"), MC_S("a message was loaded although " << what)); }
};
