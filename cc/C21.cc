// C21: the shared Dirichlet-process state conserves probability mass.
#include "models.hpp"
#include "states.hpp"
using namespace mc;
typedef DirichletProcessDiscrete M;
typedef M::Shared Shared;
typedef pb::DirichletProcessDiscrete_Shared Msg;
struct Ref {
    std::map<uint32_t, int> counts;
    std::map<uint32_t, float> betas;   // as first seen
    int adds = 0;                      // new values so far: each may leave 1e-6 too much
};
static std::string show(const Shared & s) {
    std::map<uint32_t, float> b(s.betas.begin(), s.betas.end());
    std::string r = MC_S("beta0 " << s.beta0 << " betas {");
    for (auto & p : b) { if (r.size() > 300) { r += "..."; break; } r += MC_S(p.first << ": " << p.second << " x" << s.counts.get_count(p.first) << ", "); }
    return r + "}";
}
static double mass(const Shared & s) { double t = s.beta0; for (auto & p : s.betas) t += p.second; return t; }
static double slack(const Ref & r) { return 2e-6 + 1.2e-6 * r.adds; }
static void check(const Shared & s, const Ref & r) {
    eval();
    std::set<uint32_t> b, c;
    for (auto & p : s.betas) b.insert(p.first);
    bool counts_ok = true;
    for (auto & p : s.counts) { c.insert(p.first); auto i = r.counts.find(p.first); counts_ok = counts_ok && i != r.counts.end() && i->second == p.second; }
    if (c.size() != r.counts.size() || !counts_ok) violation("use-counts", "the use counts differ from what was added: " + show(s));
    bool same = b.size() == r.counts.size();
    for (auto & p : r.counts) same = same && b.count(p.first);
    if (!same) violation("values-in-use", MC_S("weights are kept for " << b.size() << " values while " << r.counts.size() << " are in use: " << show(s)));
    for (auto & p : s.betas) if (!(p.second > 0 && p.second <= 1.000001f)) { violation("weight", MC_S("value " << p.first << " has weight " << p.second << ": " << show(s))); break; }
    if (!(s.beta0 >= 0 && s.beta0 <= 1)) violation("unused-mass", "unused mass out of range: " + show(s));
    for (auto & p : r.betas) if (s.betas.contains(p.first) && s.betas.get(p.first) != p.second) { violation("kept-weight", MC_S("value " << p.first << " had weight " << p.second << " and now " << s.betas.get(p.first))); break; }
    if (!close(mass(s), 1, slack(r))) violation("mass", MC_S("the mass is " << mass(s) << ": " << show(s)));
}
static vector<uint64_t> draws() {
    vector<uint64_t> v{1, RNG_MOD - 1, 3, RNG_MOD / 2, 123456789};
    if (thorough()) for (int i = 1; i < 8; ++i) v.push_back(lattice(i, 9));
    return v;
}
static void add(Shared & s, Ref & r, uint32_t v, uint64_t x) {
    transition();
    rng_t rng = rng_with_next(x);
    const float before = s.beta0;
    s.add_value(v, rng);
    if (++r.counts[v] == 1) {
        ++r.adds;
        float b = s.betas.contains(v) ? s.betas.get(v) : -1;
        r.betas[v] = b;
        if (!(b > 0 && b <= before * 1.000001f)) violation("new-weight", MC_S("new value " << v << " took weight " << b << " out of " << before));
    } else if (s.beta0 != before) violation("unused-mass", "adding a known value changed the unused mass");
}
static void remove(Shared & s, Ref & r, uint32_t v) {
    transition();
    rng_t rng(7);
    const float before = s.beta0;
    s.remove_value(v, rng);
    if (--r.counts[v] == 0) {
        double want = std::min(1.0, (double)before + r.betas[v]);
        if (!close(s.beta0, want, 2e-7)) violation("returned-mass", MC_S("removing the last use of a value with weight " << r.betas[v] << " raised the unused mass from " << before << " to " << s.beta0));
        r.counts.erase(v); r.betas.erase(v);
    } else if (s.beta0 != before) violation("unused-mass", "removing one of several uses changed the unused mass");
}
static void save_load(Shared & s, Ref & r, bool used) {
    transition();
    Msg m;
    s.protobuf_dump(m);
    std::string bytes; m.SerializeToString(&bytes);
    Msg n; n.ParseFromString(bytes);
    Shared t;
    if (used) { rng_t rng(99); t.gamma = 3; t.alpha = 4; t.beta0 = 1; for (uint32_t v : {0u, 77u}) t.add_value(v, rng); }
    try { t.protobuf_load(n); } catch (std::exception & e) { violation("load", MC_S("own dump rejected: " << e.what() << " " << show(s))); return; }
    if (t.gamma != s.gamma || t.alpha != s.alpha) violation("load", "loading changed the concentrations");
    if (!close(t.beta0, s.beta0, 2e-6 + 1.2e-6 * r.adds)) violation("load", MC_S("unused mass " << s.beta0 << " became " << t.beta0));
    s = t;
}
static void realize(const Shared & from, const Ref & ref, uint64_t x) {
    Shared s(from); Ref r(ref);
    transition();
    rng_t rng = rng_with_next(x);
    const float before = s.beta0;
    try { s.realize(rng); } catch (std::exception & e) { violation("realize-throws", MC_S(e.what() << " " << show(from))); return; }
    for (auto & p : s.betas) if (!r.counts.count(p.first)) {
        ++r.adds; r.betas[p.first] = p.second; r.counts[p.first] = 1;
    }
    if (before == 0 && r.counts.size() != ref.counts.size()) violation("realize", "realising a state with no mass left added values");
    if (s.beta0 != 0) violation("realize-unused", MC_S("mass " << s.beta0 << " left after realising: " << show(from)));
    if (s.betas.size() > std::max<size_t>(10000, ref.counts.size() + 1)) violation("realize", MC_S("realising made " << s.betas.size() << " values"));
    check(s, r);
    extra_max("largest_realisation", s.betas.size());
    // afterwards: known values can be added, new ones not until one is freed
    uint32_t known = r.counts.begin()->first, fresh = r.counts.rbegin()->first + 1000;
    {
        Step st("realize, add known"); Shared t(s); Ref q(r); add(t, q, known, x); check(t, q);
        remove(t, q, known); check(t, q); save_load(t, q, false); check(t, q);
    }
    {
        Step st("realize, add new"); Shared t(s); bool threw = false;
        rng_t g(5);
        try { t.add_value(fresh, g); } catch (std::exception &) { threw = true; }
        if (!threw && !(t.betas.get(fresh) > 0)) violation("realize", "a value added to a realised process has no weight");
    }
    {
        Step st("realize, free, add new"); Shared t(s); Ref q(r); while (q.counts.count(known)) remove(t, q, known); check(t, q);
        add(t, q, fresh, x); check(t, q);
        Step st2("realize again"); rng_t g = rng_with_next(x); t.realize(g);
        if (t.beta0 != 0 || !close(mass(t), 1, slack(q) + 1.2e-6 * t.betas.size())) violation("realize-unused", "realising again: " + show(t));
    }
}
struct Job {
    vector<uint32_t> values; bool deep_realize;
    void dfs(const Shared & s, const Ref & r, int depth, int total) {
        state();
        if (deep_realize || total - depth <= 1) {
            const auto ds = draws();
            for (size_t i = 0; i < (deep_realize ? 2u : 3u); ++i) { Step st(MC_S("realize() from state " << ds[i])); realize(s, r, ds[i]); }
        }
        if (!depth) { trace_done(); return; }
        for (auto v : values) {
            bool known = r.counts.count(v);
            for (auto x : draws()) {
                Step st(MC_S("add(" << v << ") from state " << x));
                Shared t(s); Ref q(r);
                if (!known && !(s.beta0 > 0)) break;
                add(t, q, v, x); check(t, q); dfs(t, q, depth - 1, total);
                if (known) break;
            }
            if (known) {
                Step st(MC_S("remove(" << v << ")"));
                Shared t(s); Ref q(r);
                remove(t, q, v); check(t, q); dfs(t, q, depth - 1, total);
            }
        }
        if (r.counts.size()) for (int used = 0; used < 2; ++used) {
            Step st(used ? "save, load into a used object" : "save, load into a fresh object");
            Shared t(s); Ref q(r);
            save_load(t, q, used); check(t, q); if (!used || depth == total - 1) dfs(t, q, depth - 1, total);
        }
    }
};
static Shared empty(float gamma, float alpha) { Shared s; s.gamma = gamma; s.alpha = alpha; s.beta0 = 1; return s; }
// many new values in a row: the mass must not creep
static void growth(float gamma) {
    for (auto x : draws()) {
        Context c(MC_S("gamma " << gamma << ", 400 new values one after another from state " << x));
        state();
        Shared s = empty(gamma, 1);
        rng_t rng = rng_with_next(x);
        for (uint32_t v = 0; v < 400; ++v) { s.add_value(v, rng); transition(); }
        eval(); trace_done();
        double m = mass(s);
        extra_max(MC_S("excess_mass_gamma_" << gamma), m - 1);
        if (!close(m, 1, 1e-4)) violation(m > 1 && m - 1 < 1e-6 * 400 + 1e-5 ? "mass-creep" : "mass", MC_S("the mass is " << m));
        for (auto & p : s.betas) if (!(p.second > 0)) { violation("weight", MC_S("value " << p.first << " has weight " << p.second)); break; }
    }
}
// Long cycles: values added and removed in every rotation, the mass must return to one
static void cycles(float gamma) {
    for (auto x : draws()) for (int width : {1, 2, 5}) {
        Context c(MC_S("gamma " << gamma << ", adding and removing in turn, " << width << " values in use, from state " << x));
        state();
        Shared s = empty(gamma, 1); Ref r;
        for (uint32_t i = 0; i < 600; ++i) {
            if (i >= (uint32_t)width) { remove(s, r, i - width); }
            add(s, r, i, 1 + (x + i * 7919ull * 65537) % (RNG_MOD - 1));
            r.adds = std::min<int>(r.adds, 3 * width + 20);   // removing everything again resets the mass
            if (double over = std::abs(mass(s) - 1)) if (over > 1e-4) { violation(mass(s) > 1 && over < 1e-6 * (i + 1) + 1e-5 ? "mass-creep" : "mass", MC_S("the mass is " << mass(s) << " after " << i + 1 << " values")); break; }
        }
        while (!r.counts.empty()) remove(s, r, r.counts.begin()->first);
        eval(); trace_done();
        if (!close(s.beta0, 1, 1e-4)) violation("mass", MC_S("with nothing in use the unused mass is " << s.beta0));
    }
}
int main(int argc, char ** argv) {
    Jobs jobs;
    for (float gamma : {.001f, .1f, .5f, 1.f, 2.f, 20.f, 1000.f, 1e6f}) {
        jobs.push_back({MC_S("histories/" << gamma), [=] { Context c(MC_S("gamma " << gamma)); Job j{{0, 7, 4000000000u}, gamma <= 2}; int d = thorough() ? 5 : 4; j.dfs(empty(gamma, .5f), {}, d, d); }});
        jobs.push_back({MC_S("many/" << gamma), [=] { growth(gamma); cycles(gamma); }});
    }
    // loaded states: full, part full, and a single value
    jobs.push_back({"loaded", [=] {
        for (auto & start : {Tr<M>::make(.5f, .5f, {{0, .25f}, {7, .125f}, {4000000000u, .5f}}), Tr<M>::make(1.f, 1.f, {{0, .25f}, {7, .75f}}), Tr<M>::make(5.f, 1.f, {{9, 1.f}}), Tr<M>::make(5.f, 1.f, {{9, 1e-6f}})}) {
            Context c("loaded " + show(start));
            Ref r; for (auto & p : start.betas) { r.betas[p.first] = p.second; r.counts[p.first] = 1; }
            Job j{{0, 7, 9}, true}; int d = thorough() ? 5 : 4; j.dfs(start, r, d, d);
        }
    }});
    // the highest value there is
    jobs.push_back({"top", [=] {
        Context c("value 4294967294 in use");
        Shared s = empty(.5f, 1); Ref r; state();
        add(s, r, 4294967294u, 1); check(s, r);
        remove(s, r, 4294967294u); check(s, r); add(s, r, 4294967294u, 12345); check(s, r); save_load(s, r, true); check(s, r); trace_done();
        Shared t(s); rng_t rng(3); transition();
        bool threw = false;
        try { t.realize(rng); } catch (std::exception & e) { threw = true; violation("realize-top", MC_S("realize() fails: " << e.what())); }
        if (!threw && t.beta0 != 0) violation("realize-unused", "mass left after realising");
    }});
    return main_(argc, argv, jobs);
}
