#include "C23_core.hpp"
#include "clustering_core.hpp"
// ------------------------------------------------- clustering mixtures
template<class Mix, class P> static void clustering(const P & prior, const char * name, int max_total) {
    typedef Misuse<Mix> Mis;
    Mis m;
    m.key = name;
    m.look = [&](const Mix & x) {
        std::set<size_t> e(x.empty_groupids().begin(), x.empty_groupids().end());
        std::string s = vss(x.counts()) + MC_S("|" << x.sample_size() << "|");
        for (auto i : e) s += MC_S(i << ' ');
        VectorFloat f(x.counts().size());
        x.score_value(prior, f);
        for (float z : f) s += num(z);
        return s + num(x.score_data(prior));
    };
    m.go_on.push_back([&](Mix & x) { x.add_value(prior, 0); });
    m.go_on.push_back([&](Mix & x) { x.add_value(prior, x.counts().size() - 1, 2); });
    m.go_on.push_back([&](Mix & x) { if (x.counts(0)) x.remove_value(prior, 0, x.counts(0)); });
    m.go_on.push_back([&](Mix & x) { x.init(prior); });
    auto misuse = [&](const Mix & x) {
        const size_t n = x.counts().size();
        for (size_t bad : {n, n + 1, n + 100000, (size_t)4294967295u, ~(size_t)0}) for (int k : {1, 3}) {
            m(x, MC_S("add_value(" << bad << ", " << k << ")"), [&](Mix & y) { y.add_value(prior, bad, k); });
            m(x, MC_S("remove_value(" << bad << ", " << k << ")"), [&](Mix & y) { y.remove_value(prior, bad, k); });
        }
        for (size_t g = 0; g < n; ++g) {
            m(x, MC_S("add_value(" << g << ", 0)"), [&](Mix & y) { y.add_value(prior, g, 0); });
            m(x, MC_S("remove_value(" << g << ", 0)"), [&](Mix & y) { y.remove_value(prior, g, 0); });
            for (int more : {1, 2, 1000}) m(x, MC_S("remove_value(" << g << ", " << x.counts(g) + more << ")"), [&](Mix & y) { y.remove_value(prior, g, x.counts(g) + more); });
        }
        for (size_t size : {n - 1, n + 1, n + 9, (size_t)0}) if (size != n) m(x, MC_S("score_value into " << size << " floats"), [&](Mix & y) {
            VectorFloat f(size); for (auto & z : f) z = 7;
            try { y.score_value(prior, f); } catch (std::exception &) { for (float z : f) if (z != 7) violation(m.key + "-changed", "score_value changed the buffer before the error"); throw; }
        });
    };
    std::set<Sizes> seen;
    std::function<void(const Mix &, int)> dfs = [&](const Mix & x, int depth) {
        if (seen.insert(x.counts()).second) { state(); misuse(x); }
        if (!depth) return;
        for (size_t g = 0; g < x.counts().size(); ++g) {
            int total = x.sample_size();
            for (int k : {1, 2}) if (total + k + 2 < max_total) { Step st(MC_S("add_value(" << g << ", " << k << ")")); Mix y(x); y.add_value(prior, g, k); transition(); dfs(y, depth - 1); }
            for (int k : {1, 2}) if (x.counts(g) >= k) { Step st(MC_S("remove_value(" << g << ", " << k << ")")); Mix y(x); y.remove_value(prior, g, k); transition(); dfs(y, depth - 1); }
        }
    };
    for (auto start : vector<Sizes>{{0}, {2, 0}, {0, 3, 1}, {0, 0}, {1, 0, 0, 2}}) {
        Context c(MC_S(name << " from " << vss(start)));
        Mix x; x.counts() = start; x.init(prior);
        dfs(x, thorough() ? 5 : 4);
    }
    // no empty group to start with
    for (auto start : vector<Sizes>{{}, {1}, {3}, {2, 1}, {1, 1, 1, 1, 1}}) {
        Context c(MC_S(name << " from " << vss(start) << ", which has no empty group"));
        Mix x; x.counts() = start;
        bool threw = false; state(); transition(); eval();
        try { x.init(prior); } catch (std::exception &) { threw = true; }
        if (!threw) violation(std::string(name) + "-not-reported", "no error was raised");
        x.counts() = start; x.counts().push_back(0); x.init(prior);   // put right
        Mix y; y.counts() = x.counts(); y.init(prior);
        if (m.look(x) != m.look(y)) violation(std::string(name) + "-changed", "initialising properly afterwards gives another state");
        trace_done();
    }
}
static void job_priors() {
    PY py; py.alpha = 1; py.d = .2f; rng_t fresh_rng;
    struct State { rng_t rng; };
    Misuse<State> m; m.key = "prior"; m.look = [](const State & s) { return MC_S(s.rng); };
    state();
    for (int n : {16777216, 20000000, 2147483647}) m(State(), MC_S("PitmanYor sample_assignments(" << n << ")"), [&](State & s) { py.sample_assignments(n, s.rng); });
    for (int d : {1, 2, 5, 100}) {
        LE le; le.dataset_size = d;
        Context c(MC_S("LowEntropy(" << d << ")"));
        state();
        for (int n = d + 1; n <= d + 3; ++n) {
            m(State(), MC_S("sample_assignments(" << n << ")"), [&](State & s) { le.sample_assignments(n, s.rng); });
            m(State(), MC_S("score_counts of " << n), [&](State &) { le.score_counts({n - 1, 1}); });
        }
        for (int n = d; n <= d + 2; ++n) for (int g : {0, 1, 3}) m(State(), MC_S("score_add_value(" << g << ", 1, " << n << ")"), [&](State &) { le.score_add_value(g, 1, n, 1); });
        for (int n = 0; n < std::min(d, 4); ++n) {
            m(State(), MC_S("score_add_value with no empty group, " << n), [&](State &) { le.score_add_value(0, 0, n, 0); });
            m(State(), MC_S("score_add_value with more groups than values, " << n), [&](State &) { le.score_add_value(0, n + 1, n, 1); });
        }
        m(State(), "score_remove_value from nothing", [&](State &) { le.score_remove_value(1, 1, 0, 1); });
    }
    typedef Clustering<int>::Assignments A;
    for (int mask = 1; mask < 32; ++mask) {   // group ids with gaps
        bool gap = mask & (mask + 1);
        A a; int id = 0;
        for (int g = 0; g < 5; ++g) if (mask >> g & 1) { a[id++] = g; a[id++] = g; }
        state(); eval(); transition();
        bool threw = false; Sizes got;
        try { got = Clustering<int>::count_assignments(a); } catch (std::exception &) { threw = true; }
        if (threw != gap) violation(gap ? "assignments-not-reported" : "assignments-rejected", MC_S("group ids in use: bits of " << mask));
        trace_done();
    }
}
// ------------------------------------------------------------- trackers
static void job_tracker() {
    typedef MixtureIdTracker T;
    Misuse<T> m; m.key = "tracker";
    m.look = [](const T & t) { std::string s = MC_S(t.packed_size() << '/' << t.global_size() << ':'); for (size_t i = 0; i < t.packed_size(); ++i) s += MC_S(' ' << t.packed_to_global(i) << (t.global_to_packed(t.packed_to_global(i)) == i ? "" : "!")); return s; };
    m.go_on.push_back([](T & t) { t.add_group(); });
    m.go_on.push_back([](T & t) { t.remove_group(0); });
    std::function<void(const T &, int)> dfs = [&](const T & t, int depth) {
        state();
        const uint32_t n = t.packed_size(), g = t.global_size();
        for (uint32_t bad : {n, n + 1, n + 100, 4294967295u}) {
            m(t, MC_S("remove_group(" << bad << ")"), [=](T & x) { x.remove_group(bad); });
            m(t, MC_S("packed_to_global(" << bad << ")"), [=](T & x) { x.packed_to_global(bad); });
        }
        std::set<uint32_t> live; for (uint32_t i = 0; i < n; ++i) live.insert(t.packed_to_global(i));
        for (uint32_t id = 0; id < g + 3; ++id) if (!live.count(id)) m(t, MC_S("global_to_packed(" << id << (id < g ? ", stale)" : ", unknown)")), [=](T & x) { x.global_to_packed(id); });
        m(t, "global_to_packed(4294967295)", [=](T & x) { x.global_to_packed(4294967295u); });
        if (!depth) return;
        { Step s("add_group"); T x(t); x.add_group(); transition(); dfs(x, depth - 1); }
        for (uint32_t i = 0; i < n; ++i) { Step s(MC_S("remove_group(" << i << ")")); T x(t); x.remove_group(i); transition(); dfs(x, depth - 1); }
    };
    for (int start = 0; start <= 3; ++start) { T t; t.init(start); Context c(MC_S("tracker of " << start)); dfs(t, thorough() ? 6 : 5); }
}
// ----------------------------------------------------------- containers
static void job_containers() {
    typedef Sparse_<uint32_t, float> S; typedef SparseCounter<uint32_t, int> C; typedef Packed_<int> P;
    const vector<uint32_t> ks{0, 5, 4294967295u};
    Misuse<S> ms; ms.key = "sparse-map";
    ms.look = [](const S & s) { std::map<uint32_t, float> m(s.begin(), s.end()); std::string r = MC_S(s.size() << ':'); for (auto & p : m) r += MC_S(p.first << '=' << p.second << ' '); return r; };
    ms.go_on.push_back([](S & s) { s.get_or_add(5) += 1; }); ms.go_on.push_back([](S & s) { if (s.contains(0)) s.remove(0); else s.add(0, 3); });
    for (int set = 0; set < 8; ++set) for (float v : {0.f, 2.f}) {   // every content over three keys
        S s; for (int i = 0; i < 3; ++i) if (set >> i & 1) s.add(ks[i], v + i);
        Context c("sparse map " + ms.look(s)); state();
        for (int i = 0; i < 3; ++i) {
            auto k = ks[i];
            if (set >> i & 1) { ms(s, MC_S("add(" << k << ")"), [=](S & x) { x.add(k); }); ms(s, MC_S("add(" << k << ", 9)"), [=](S & x) { x.add(k, 9); }); }
            else {
                ms(s, MC_S("remove(" << k << ")"), [=](S & x) { x.remove(k); }); ms(s, MC_S("pop(" << k << ")"), [=](S & x) { x.pop(k); });
                ms(s, MC_S("set(" << k << ")"), [=](S & x) { x.set(k, 1); }); ms(s, MC_S("get(" << k << ")"), [=](S & x) { x.get(k) = 1; });
                ms(s, MC_S("const get(" << k << ")"), [=](S & x) { const S & y = x; y.get(k); });
            }
        }
    }
    Misuse<C> mc_; mc_.key = "sparse-counter";
    mc_.look = [](const C & s) { std::map<uint32_t, int> m(s.begin(), s.end()); std::string r = MC_S(s.get_total() << ':'); for (auto & p : m) r += MC_S(p.first << '=' << p.second << ' '); return r; };
    mc_.go_on.push_back([](C & s) { s.add(5); }); mc_.go_on.push_back([](C & s) { s.remove(0); }); mc_.go_on.push_back([](C & s) { s.add(4294967295u, 2); }); mc_.go_on.push_back([](C & s) { C t(s); s.merge(t); });
    for (int a = -2; a <= 3; ++a) for (int b = -2; b <= 3; ++b) for (int d = -1; d <= 1; ++d) {
        C s; const int v[3] = {a, b, d}; for (int i = 0; i < 3; ++i) s.add(ks[i], v[i]);
        Context c("sparse counter " + mc_.look(s)); state();
        for (int i = 0; i < 3; ++i) if (v[i]) {
            auto k = ks[i];
            for (int n : {1, -1, 7}) mc_(s, MC_S("init_count(" << k << ", " << n << ")"), [=](C & x) { x.init_count(k, n); });
            for (int j = 0; j < 3; ++j) if (j != i && v[j]) { auto t = ks[j]; mc_(s, MC_S("rename(" << k << ", " << t << ")"), [=](C & x) { x.rename(k, t); }); }
        }
    }
    Misuse<P> mp; mp.key = "packed";
    mp.look = [](const P & p) { std::string r = MC_S(p.size() << ':'); for (int x : p) r += MC_S(x << ' '); return r; };
    mp.go_on.push_back([](P & p) { p.packed_add(77); }); mp.go_on.push_back([](P & p) { p.packed_remove(0); });
    for (size_t n = 0; n <= 6; ++n) { P p; for (size_t i = 0; i < n; ++i) p.packed_add(i); Context c("packed vector " + mp.look(p)); state(); for (size_t bad : {n, n + 1, n + 1000000, ~(size_t)0}) mp(p, MC_S("packed_remove(" << bad << ")"), [=](P & x) { x.packed_remove(bad); }); }
}
// -------------------------------------------------------------- samplers
static void job_samplers() {
    struct State { rng_t rng; float buf[4]; };
    Misuse<State> m; m.key = "sampler"; m.look = [](const State & s) { return MC_S(s.rng << ' ' << s.buf[0] << ' ' << s.buf[1] << ' ' << s.buf[2]); };
    for (unsigned seed : {1u, 2u, 12345u, 2147483646u}) {
        State s{rng_t(seed), {1, 2, 3, 4}};
        Context c(MC_S("generator seeded " << seed)); state();
        m(s, "sample_from_urn of nothing", [](State & x) { sample_from_urn(x.rng, vector<int>()); });
        m(s, "sample_pair_from_urn of nothing", [](State & x) { sample_pair_from_urn(x.rng, vector<int>()); });
        m(s, "sample_pair_from_urn of one", [](State & x) { sample_pair_from_urn(x.rng, vector<int>(1, 5)); });
        m(s, "sample_discrete of nothing", [](State & x) { sample_discrete(x.rng, 0, x.buf); });
        m(s, "sample_from_likelihoods of nothing", [](State & x) { VectorFloat v; sample_from_likelihoods(x.rng, v, 1); });
        m(s, "sample_beta_safe with a negative bound", [](State & x) { sample_beta_safe(x.rng, 1, 1, -.5f); });
        for (float a : {0.f, -1.f}) m(s, "sample_beta_safe with a bad alpha", [a](State & x) { sample_beta_safe(x.rng, a, 1, .1f); });
        m(s, "sample_dirichlet_safe with a negative bound", [](State & x) { float a[3] = {1, 1, 1}; sample_dirichlet_safe(x.rng, 3, a, x.buf, -.5f); });
m(s, "sample_dirichlet_safe with a negative alpha", [=](State & x) { float a[3] = {-1, 1, 1}; sample_dirichlet_safe(x.rng, 3, a, x.buf, .1f); });
    }
}
// --------------------------------------------- Dirichlet-process weights
static void job_weights() {
    typedef DirichletProcessDiscrete::Shared S;
    Misuse<S> m; m.key = "dpd-shared";
    m.look = [](const S & s) { std::map<uint32_t, float> b(s.betas.begin(), s.betas.end()); std::map<uint32_t, int> c(s.counts.begin(), s.counts.end()); std::string r = MC_S(s.beta0 << ' ' << s.counts.get_total() << " |"); for (auto & p : b) r += MC_S(' ' << p.first << ':' << num(p.second)); r += " |"; for (auto & p : c) r += MC_S(' ' << p.first << 'x' << p.second); return r; };
    for (uint32_t v : {0u, 5u, 9u}) { m.go_on.push_back([v](S & s) { rng_t r; s.add_value(v, r); }); m.go_on.push_back([v](S & s) { rng_t r; if (s.counts.get_count(v)) s.remove_value(v, r); }); }
    m.go_on.push_back([](S & s) { rng_t r; for (auto v : {0u, 5u}) while (s.counts.get_count(v) > 0) s.remove_value(v, r); s.add_value(8, r); s.add_value(9, r); });
    const uint32_t other = DirichletProcessDiscrete::OTHER();
    auto go = [&](const S & s) {
        state();
        m(s, "add_value(OTHER)", [=](S & x) { rng_t r; x.add_value(other, r); });
        m(s, "remove_value(OTHER)", [=](S & x) { rng_t r; x.remove_value(other, r); });
        for (uint32_t v : {0u, 5u, 9u, 4294967294u}) if (!s.counts.get_count(v)) {
            m(s, MC_S("remove_value(" << v << "), not in use"), [=](S & x) { rng_t r; x.remove_value(v, r); }, "-unknown");
            if (s.beta0 == 0) m(s, MC_S("add_value(" << v << "), no mass left"), [=](S & x) { rng_t r; x.add_value(v, r); }, "-full");
        }
    };
    std::function<void(const S &, int)> dfs = [&](const S & s, int depth) {
        go(s);
        if (!depth) return;
        for (uint32_t v : {0u, 5u, 9u}) {
            if (s.beta0 > 0 || s.betas.contains(v)) { Step st(MC_S("add " << v)); S x(s); rng_t r(v + 1); x.add_value(v, r); transition(); dfs(x, depth - 1); }
            if (s.betas.contains(v)) { Step st(MC_S("remove " << v)); S x(s); rng_t r; x.remove_value(v, r); transition(); dfs(x, depth - 1); }
        }
        if (s.beta0 > 0 && s.betas.size()) { Step st("realize"); S x(s); rng_t r; x.realize(r); transition(); if (x.betas.size() < 200) go(x); }
    };
    for (float gamma : {.1f, 1.f}) { Context c(MC_S("gamma " << gamma)); S s; s.gamma = gamma; s.alpha = 1; s.beta0 = 1; dfs(s, thorough() ? 5 : 4); }
    for (auto & s : Tr<DirichletProcessDiscrete>::shareds()) { Context c("loaded weights"); dfs(s, 2); }
}
// ---------------------------------------------------------------- models
template<class M> void job_model(int si, vector<std::pair<std::string, typename M::Value>> bad, vector<std::pair<std::string, typename M::Value>> unscorable) {
    Model<M> m;
    m.shared = Tr<M>::shareds()[si];
    for (auto v : Tr<M>::values(m.shared)) m.vals.push_back(v);
    m.bad_values = bad; m.unscorable = unscorable;
    setup(m);
    m.groups();
    m.template mixtures<typename M::FastMixture>("mixture");
    m.template mixtures<typename M::SmallMixture>("small-mixture");
}
template<class X> void setup(X &) {}
template<> void setup(Model<NormalInverseChiSq> & m) {
    typedef NormalInverseChiSq M;
    auto * p = &m;
    m.extra_group = [p](const Misuse<M::Group> & mis, const M::Group & g, const Bag & n) { if (!bag_total(n)) for (float v : p->vals) mis(g, MC_S("remove_value(" << v << ") from an empty group"), [=](M::Group & h) { rng_t r; h.remove_value(p->shared, v, r); }); };
}
template<int D> void setup(Model<DirichletDiscrete<D>> & m) {
    typedef DirichletDiscrete<D> M;
    auto * p = &m;
    m.extra_group = [p](const Misuse<typename M::Group> & mis, const typename M::Group & g, const Bag &) {
        for (auto & b : p->unscorable) { int v = b.second; mis(g, "Scorer.eval(" + b.first + ")", [=](typename M::Group & h) { rng_t r; typename M::Scorer s; s.init(p->shared, h, r); s.eval(p->shared, v, r); }); }
    };
}
template<> void setup(Model<DirichletProcessDiscrete> & m) {
    typedef DirichletProcessDiscrete M;
    auto * p = &m;
    m.extra_group = [p](const Misuse<M::Group> & mis, const M::Group & g, const Bag &) {
        for (auto & b : p->unscorable) {
            uint32_t v = b.second;
            mis(g, "score_value(" + b.first + ")", [=](M::Group & h) { rng_t r; h.score_value(p->shared, v, r); });
            mis(g, "Scorer.eval(" + b.first + ")", [=](M::Group & h) { rng_t r; M::Scorer s; s.init(p->shared, h, r); s.eval(p->shared, v, r); });
        }
    };
}
int main(int argc, char ** argv) {
    Jobs jobs;
    PY py; py.alpha = .7f; py.d = .3f;
    LE le; le.dataset_size = 40;
    jobs.push_back({"py-mixture", [=] { clustering<PY::Mixture>(py, "py-mixture", 40); }});
    jobs.push_back({"driver", [=] { clustering<MixtureDriver<PY, int>>(py, "driver", 40); }});
    jobs.push_back({"le-mixture", [=] { clustering<LE::Mixture>(le, "le-mixture", 30); }});
    jobs.push_back({"priors", job_priors}); jobs.push_back({"tracker", job_tracker}); jobs.push_back({"containers", job_containers});
    jobs.push_back({"samplers", job_samplers}); jobs.push_back({"weights", job_weights});
    for (int i = 0; i < 3; ++i) {
        jobs.push_back({MC_S("bb/" << i), [=] { job_model<BetaBernoulli>(i, {}, {}); }});
        jobs.push_back({MC_S("bnb/" << i), [=] { job_model<BetaNegativeBinomial>(i, {}, {}); }});
        jobs.push_back({MC_S("gp/" << i), [=] { job_model<GammaPoisson>(i, {}, {}); }});
        jobs.push_back({MC_S("nich/" << i), [=] { job_model<NormalInverseChiSq>(i, {}, {}); }});
        vector<std::pair<std::string, int>> out;
        for (int d : {0, 1, 5, 1000000}) { int v = (i < 2 ? 3 : 8) + d; out.push_back({MC_S("value " << v), v}); }
        for (int v : {-1, -2, -1000000}) out.push_back({MC_S("value " << v), v});
        jobs.push_back({MC_S("dd/" << i), [=] { job_model<DirichletDiscrete<8>>(i, out, out); }});
        vector<std::pair<std::string, uint32_t>> unknown{{"unknown value 2", 2}, {"unknown value 4294967294", 4294967294u}}, bad(unknown);
        bad.push_back({"OTHER", 4294967295u});
        jobs.push_back({MC_S("dpd/" << i), [=] { job_model<DirichletProcessDiscrete>(i, bad, unknown); }});
    }
    return main_(argc, argv, jobs);
}
