// C23: misuse raises an error and leaves the object as it was.
#pragma once
#include "models.hpp"
using namespace mc;
inline std::string num(float x) { uint32_t b; x += 0.f; memcpy(&b, &x, 4); return MC_S(x << '/' << b << ' '); }
// bad(y) must throw; afterwards y must look like x, and go on like x
template<class X> struct Misuse {
    std::string key;
    std::function<std::string(const X &)> look;
    std::vector<std::function<void(X &)>> go_on;
    void operator()(const X & x, const std::string & what, std::function<void(X &)> bad, const char * sub = "") const {
        Step st(what);
        X y(x);
        bool threw = false;
        transition();
        try { bad(y); } catch (const std::exception &) { threw = true; }
        eval();
        if (!threw) { violation(key + sub + "-not-reported", "no error was raised"); return; }
        const std::string was = look(x);
        std::string now;
        try { now = look(y); } catch (const std::exception & e) { now = std::string("error: ") + e.what(); }
        if (now != was) { violation(key + sub + "-changed", "after the error the object shows " + now.substr(0, 300) + " instead of " + was.substr(0, 300)); return; }
        for (size_t i = 0; i < go_on.size(); ++i) {
            X a(x), b(y);
            std::string la, lb;
            try { go_on[i](a); la = look(a); } catch (const std::exception & e) { la = "error"; }
            try { go_on[i](b); lb = look(b); } catch (const std::exception & e) { lb = "error"; }
            transition(2); eval();
            if (la != lb) { violation(key + sub + "-changed-later", MC_S("after the error and continuation " << i << " the object shows " << lb.substr(0, 300) << " instead of " << la.substr(0, 300))); return; }
        }
        trace_done();
    }
};
template<class M> struct Model {   // groups and mixtures of one component model
    typedef Tr<M> T; typedef typename M::Value Value; typedef typename M::Group Group; typedef typename M::Shared Shared;
    Shared shared; vector<Value> vals; rng_t rng;
    std::string look_group(const Group & g) { std::string s = T::raw(g) + "|"; for (auto v : vals) { Value x = v; s += num(g.score_value(shared, x, rng)); } return s + num(g.score_data(shared, rng)); }
    // values the model's domain leaves out
    vector<std::pair<std::string, Value>> bad_values;
    vector<Bag> bags(int max) {
        vector<Bag> r; Bag b(vals.size(), 0);
        std::function<void(size_t)> go = [&](size_t i) { if (i == std::min<size_t>(vals.size(), 3)) { r.push_back(b); return; } for (int k = 0; k <= max; ++k) { b[i] = k; go(i + 1); } b[i] = 0; };
        go(0);
        return r;
    }
    void groups() {
        Misuse<Group> m;
        m.key = MC_S(T::name() << "-group");
        m.look = [&](const Group & g) { return look_group(g); };
        for (auto v : vals) { Value x = v; m.go_on.push_back([=](Group & g) { rng_t r; Value y = x; g.add_value(shared, y, r); }); }
        m.go_on.push_back([=](Group & g) { rng_t r; Group h; h.init(shared, r); Value y = vals[0]; h.add_value(shared, y, r); g.merge(shared, h, r); });
        for (auto & n : bags(thorough() ? 3 : 2)) {
            Context c(MC_S(T::name() << " group holding " << bag_s(n)));
            state();
            Group g = fresh<M>(shared, n);
            for (auto & b : bad_values) {
                Value x = b.second;
                m(g, "add_value(" + b.first + ")", [=](Group & h) { rng_t r; Value y = x; h.add_value(shared, y, r); });
                m(g, "add_repeated_value(" + b.first + ", 3)", [=](Group & h) { rng_t r; Value y = x; h.add_repeated_value(shared, y, 3, r); });
                m(g, "remove_value(" + b.first + ")", [=](Group & h) { rng_t r; Value y = x; h.remove_value(shared, y, r); });
            }
            extra_group(m, g, n);
        }
    }
    std::function<void(const Misuse<Group> &, const Group &, const Bag &)> extra_group = [](const Misuse<Group> &, const Group &, const Bag &) {};
    vector<std::pair<std::string, Value>> unscorable;
    struct Mix2 { typename M::Mixture m; };
    template<class Mix> std::string look_mix(const Mix & m) {
        std::string s;
        m.validate(shared);
        for (auto & g : m.groups()) s += T::raw(g) + ";";
        for (auto v : vals) { Value x = v; VectorFloat f(m.groups().size()); for (auto & z : f) z = 1; m.score_value(shared, x, f, rng); for (float z : f) s += num(z); for (size_t g = 0; g < m.groups().size(); ++g) s += num(m.score_value_group(shared, g, x, rng)); }
        return s + num(m.score_data(shared, rng));
    }
    template<class Mix> void mixtures(const char * name) {
        Misuse<Mix> m;
        m.key = MC_S(T::name() << "-" << name);
        m.look = [&](const Mix & x) { return look_mix(x); };
        Value v0 = vals[0], v1 = vals.back();
        m.go_on.push_back([=](Mix & x) { rng_t r; Value y = v0; x.add_value(shared, 0, y, r); });
        m.go_on.push_back([=](Mix & x) { rng_t r; x.add_group(shared, r); Value y = v1; x.add_value(shared, x.groups().size() - 1, y, r); });
        m.go_on.push_back([=](Mix & x) { x.remove_group(shared, 0); });
        // every mixture of up to three groups over small bags
        const vector<Bag> few = bags(1);
        for (size_t n = 0; n <= (thorough() ? 3u : 2u); ++n) {
            vector<size_t> pick(n, 0);
            while (true) {
                Mix x; std::string s;
                for (auto p : pick) { x.groups().push_back(fresh<M>(shared, few[p])); s += bag_s(few[p]); }
                x.init(shared, rng);
                Context c(MC_S(T::name() << " " << name << " of groups " << s));
                state();
                misuse_mixture(m, x);
                size_t i = 0;
                while (i < n && ++pick[i] == few.size()) pick[i++] = 0;
                if (i == n) break;
            }
        }
    }
    template<class Mix> void misuse_mixture(const Misuse<Mix> & m, const Mix & x) {
        const size_t n = x.groups().size();
        for (size_t bad : {n, n + 1, n + 1000000, (size_t)4294967295u, ~(size_t)0}) {
            Value v = vals[0];
            m(x, MC_S("add_value(group " << bad << ")"), [=](Mix & y) { rng_t r; Value w = v; y.add_value(shared, bad, w, r); });
            m(x, MC_S("remove_value(group " << bad << ")"), [=](Mix & y) { rng_t r; Value w = v; y.remove_value(shared, bad, w, r); });
            m(x, MC_S("remove_group(" << bad << ")"), [=](Mix & y) { y.remove_group(shared, bad); });
            m(x, MC_S("groups(" << bad << ")"), [=](Mix & y) { y.groups(bad); });
            m(x, MC_S("const groups(" << bad << ")"), [=](Mix & y) { const Mix & z = y; z.groups(bad); });
            m(x, MC_S("score_value_group(" << bad << ")"), [=](Mix & y) { rng_t r; Value w = v; y.score_value_group(shared, bad, w, r); });
        }
        for (size_t size : {n + 1, n + 8, n ? n - 1 : n + 2}) {
            Value v = vals[0];
            m(x, MC_S("score_value into " << size << " floats"), [=](Mix & y) {
                rng_t r; Value w = v; VectorFloat f(size); for (auto & z : f) z = 7;
                try { y.score_value(shared, w, f, r); } catch (std::exception &) { for (float z : f) if (z != 7) violation(m.key + "-changed", "score_value changed the buffer before the error"); throw; }
            });
        }
        for (size_t size : {0, 1, 3}) m(x, MC_S("score_data_grid of 2 settings into " << size << " floats"), [=](Mix & y) { rng_t r; vector<Shared> s(2, shared); VectorFloat f(size); y.score_data_grid(s, f, r); });
        for (auto & b : bad_values) for (size_t g = 0; g < n; ++g) {
            Value v = b.second;
            m(x, MC_S("add_value(" << b.first << ", group " << g << ")"), [=](Mix & y) { rng_t r; Value w = v; y.add_value(shared, g, w, r); });
            m(x, MC_S("remove_value(" << b.first << ", group " << g << ")"), [=](Mix & y) { rng_t r; Value w = v; y.remove_value(shared, g, w, r); });
        }
        for (auto & b : unscorable) if (n) {
            Value v = b.second;
            m(x, MC_S("score_value(" << b.first << ")"), [=](Mix & y) { rng_t r; Value w = v; VectorFloat f(n); y.score_value(shared, w, f, r); });
            m(x, MC_S("score_value_group(" << b.first << ")"), [=](Mix & y) { rng_t r; Value w = v; y.score_value_group(shared, 0, w, r); });
        }
    }
};
