namespace Eigen_ { template<class F, int R, int C> struct Matrix; }
#include "C22_core.hpp"
#include "states.hpp"
template<class M> void add_jobs(Jobs & jobs, int depth, int more) {
    for (size_t i = 0; i < Tr<M>::shareds().size(); ++i) jobs.push_back({MC_S(Tr<M>::name() << "/" << i), [=] { RoundTrip<M> r; r.groups(i, depth, more); }});
}
// group messages with extreme but reachable contents come back as they went
template<class M, class F> void extreme(F each) {
    each([](const typename Tr<M>::Msg::Group & m) {
        Context c(MC_S(Tr<M>::name() << " group message " << m.ShortDebugString()));
        typename M::Group g; state(); transition(); eval();
        g.protobuf_load(wire(m));
        auto d = dumped<typename Tr<M>::Msg::Group>(g);
        if (canon(d) != canon(m)) violation(MC_S(Tr<M>::name() << "-extreme"), "dumped " + d.ShortDebugString());
        trace_done();
    });
}
static void job_extremes() {
    const vector<uint64_t> ints{0, 1, 255, 65536, 2147483647ull}, wide{0, 1, 2147483647ull, 2147483648ull, 4294967295ull};
    const vector<float> floats{0, 1, -1, 1e-30f, 3e38f, -3e38f, .1f, 16777217.f};
    extreme<BetaBernoulli>([&](std::function<void(const pb::BetaBernoulli::Group &)> f) { pb::BetaBernoulli::Group m; for (auto a : ints) for (auto b : ints) { m.set_heads(a); m.set_tails(b); f(m); } });
    extreme<BetaNegativeBinomial>([&](std::function<void(const pb::BetaNegativeBinomial::Group &)> f) { pb::BetaNegativeBinomial::Group m; for (auto a : wide) for (auto b : wide) { m.set_count(a); m.set_sum(b); f(m); } });
    extreme<GammaPoisson>([&](std::function<void(const pb::GammaPoisson::Group &)> f) { pb::GammaPoisson::Group m; for (auto a : wide) for (auto b : wide) for (auto x : floats) { m.set_count(a); m.set_sum(b); m.set_log_prod(x); f(m); } });
    extreme<NormalInverseChiSq>([&](std::function<void(const pb::NormalInverseChiSq::Group &)> f) { pb::NormalInverseChiSq::Group m; for (auto a : ints) for (auto x : floats) for (auto y : floats) { m.set_count(a); m.set_mean(x); m.set_count_times_variance(y); f(m); } });
    extreme<DirichletDiscrete<256>>([&](std::function<void(const pb::DirichletDiscrete::Group &)> f) { for (int n = 0; n <= 256; ++n) { pb::DirichletDiscrete::Group m; for (int i = 0; i < n; ++i) m.add_counts(i == n - 1 ? 2147480000 : i % 3); f(m); } });
    extreme<DirichletProcessDiscrete>([&](std::function<void(const pb::DirichletProcessDiscrete::Group &)> f) { for (int n = 0; n <= 60; ++n) { pb::DirichletProcessDiscrete::Group m; for (int i = 0; i < n; ++i) { m.add_keys(i * 71582788u); m.add_values(i % 4 == 3 ? (uint64_t)(int64_t)-i : i % 7 ? i : 2000000 + i); } f(m); } });
}
template<class M, class F> void more_shareds(F fill) { vector<typename M::Shared> v; fill(v); RoundTrip<M> r; r.shareds(v); }
static void job_shareds() {
    const vector<float> x{1e-20f, .001f, .5f, 1.f, 7.25f, 1e6f, 1e20f};
    more_shareds<BetaBernoulli>([&](vector<BetaBernoulli::Shared> & v) { for (auto a : x) for (auto b : x) { BetaBernoulli::Shared s; s.alpha = a; s.beta = b; v.push_back(s); } });
    more_shareds<BetaNegativeBinomial>([&](vector<BetaNegativeBinomial::Shared> & v) { for (auto a : x) for (auto b : x) for (unsigned r : {1u, 3u, 1000000u, 4294967295u}) { BetaNegativeBinomial::Shared s; s.alpha = a; s.beta = b; s.r = r; v.push_back(s); } });
    more_shareds<GammaPoisson>([&](vector<GammaPoisson::Shared> & v) { for (auto a : x) for (auto b : x) { GammaPoisson::Shared s; s.alpha = a; s.inv_beta = b; v.push_back(s); } });
    more_shareds<NormalInverseChiSq>([&](vector<NormalInverseChiSq::Shared> & v) { for (auto a : x) for (auto b : {-1e10f, 0.f, .3f}) for (auto k : {.1f, 5.f}) { NormalInverseChiSq::Shared s; s.mu = b; s.kappa = k; s.sigmasq = a; s.nu = 3 * k; v.push_back(s); } });
    typedef DirichletDiscrete<256> DD;
    more_shareds<DD>([&](vector<DD::Shared> & v) { for (int n : {1, 2, 3, 31, 255, 256}) { DD::Shared s; memset((void *)&s, 0, sizeof s); s.dim = n; for (int i = 0; i < n; ++i) s.alphas[i] = x[i % 7]; v.push_back(s); } });
    typedef DirichletProcessDiscrete DPD;
    more_shareds<DPD>([&](vector<DPD::Shared> & v) {
        for (int n : {1, 2, 3, 40, 500}) for (float left : {0.f, .5f}) { std::map<uint32_t, float> b; for (int i = 0; i < n; ++i) b[i * 8589934u] = (1 - left) / n; v.push_back(Tr<DPD>::make(x[n % 7], x[(n + 1) % 7], b)); if (n < 5) v.back().counts.add(0, 41); }
    });
}
static void job_shapes() {
    typedef DirichletProcessDiscrete DPD; typedef pb::DirichletProcessDiscrete P;
    const DPD::Shared used = Tr<DPD>::shareds()[0];
    RoundTrip<DPD> t;
    for (int v = 0; v <= 4; ++v) for (int b = 0; b <= 4; ++b) for (int c = 0; c <= 4; ++c) {
        Context ctx(MC_S("shared message with " << v << " values, " << b << " weights, " << c << " counts"));
        state(); trace_done();
        P::Shared m; m.set_gamma(.5f); m.set_alpha(.5f);
        for (int i = 0; i < v; ++i) m.add_values(3 * i);
        for (int i = 0; i < b; ++i) m.add_betas(.2f);
        for (int i = 0; i < c; ++i) m.add_counts(i + 1);
        bool bad = v != b || v != c;
        for (auto & s : {used, DPD::Shared()}) if (throws_on(s, wire(m)) != bad) violation(bad ? "dpd-accepts-bad-shape" : "dpd-rejects-good-shape", "loading the shared state");
        eval(2);
    }
    for (float beta : {0.f, -.1f, 1.1f}) { Context ctx(MC_S("weight " << beta)); P::Shared m; m.set_gamma(1); m.set_alpha(1); m.add_values(1); m.add_betas(beta); m.add_counts(1); t.reject("a weight is out of range", throws_on(used, m)); }
    { Context ctx("weights total 1.2"); P::Shared m; m.set_gamma(1); m.set_alpha(1); for (int i = 0; i < 3; ++i) { m.add_values(i); m.add_betas(.4f); m.add_counts(1); } t.reject("the weights total more than one", throws_on(used, m)); }
    for (int k = 0; k <= 5; ++k) for (int v = 0; v <= 5; ++v) {
        Context ctx(MC_S("group message with " << k << " keys, " << v << " values"));
        state(); trace_done();
        P::Group m; for (int i = 0; i < k; ++i) m.add_keys(i); for (int i = 0; i < v; ++i) m.add_values(i + 1);
        if (throws_on(DPD::Group(), wire(m)) != (k != v)) violation(k != v ? "dpd-accepts-bad-shape" : "dpd-rejects-good-shape", "loading the group");
        eval();
    }
    typedef DirichletDiscrete<5> DD;
    RoundTrip<DD> u;
    for (int n = 0; n <= 300; ++n) {
        Context ctx(MC_S("dd<5> message of size " << n));
        state(); trace_done();
        pb::DirichletDiscrete::Shared m; pb::DirichletDiscrete::Group g;
        for (int i = 0; i < n; ++i) { m.add_alphas(1); g.add_counts(1); }
        if (n > 5) { u.reject("it has too many alphas", throws_on(DD::Shared(), wire(m))); u.reject("it has too many counts", throws_on(DD::Group(), wire(g))); }
        else if (throws_on(DD::Shared(), wire(m)) || throws_on(DD::Group(), wire(g))) violation("dd-rejects-good-shape", "a message that fits is rejected");
    }
}
template<class Msg, class X, class F> static void prior(const vector<X> & list, const char * name, F tag) {
    for (auto & p : list) for (auto & over : list) {
        Msg m = dumped<Msg>(p), w = wire(m), again = dumped<Msg>(over);
        Context ctx(MC_S(name << " " << m.ShortDebugString()));
        state(); transition();
        X q = over; q.protobuf_load(w); q.protobuf_dump(again);
        eval();
        if (canon(again) != canon(m)) violation(name, "loaded prior dumps " + again.ShortDebugString());
        auto limit = tag(p);
        for (int size = 1; size <= limit; ++size) for (unsigned seed : {1u, 77u}) {
            rng_t a(seed), b(seed);
            if (p.sample_assignments(size, a) != q.sample_assignments(size, b) || a != b) violation(name, "the loaded prior samples differently");
            eval();
        }
        for (int g = 0; g <= 3 && g < limit; ++g) for (int k = 1; k <= 3; ++k) for (int e = 1; e <= 2; ++e) {
            int n = g + k + 2;
            if (limit < 20 && n >= limit) continue;
            if (p.score_add_value(g, k, n, e) != q.score_add_value(g, k, n, e)) violation(name, "the loaded prior scores differently");
            if (g && p.score_remove_value(g, k, n, e) != q.score_remove_value(g, k, n, e)) violation(name, "the loaded prior scores differently");
            eval();
        }
        if (limit > 8 && p.score_counts({1, 3, 2}) != q.score_counts({1, 3, 2})) violation(name, "the loaded prior scores differently");
        trace_done();
    }
}
static void job_clustering() {
    typedef Clustering<int>::PitmanYor PY; typedef Clustering<int>::LowEntropy LE;
    vector<PY> pys; for (float a : {.001f, .5f, 1.f, 20.f, 1e6f}) for (float d : {0.f, .1f, .5f, .99f}) { PY p; p.alpha = a; p.d = d; pys.push_back(p); }
    vector<LE> les; for (int n : {1, 2, 3, 50, 1000000, 2147483647}) { LE l; l.dataset_size = n; les.push_back(l); }
    prior<pb::Clustering::PitmanYor>(pys, "pitman-yor", [](const PY &) { return 20; });
    prior<pb::Clustering::LowEntropy>(les, "low-entropy", [](const LE & l) { return std::min(l.dataset_size, 20); });
}
// shared Dirichlet-process states as they arise, and groups scored under them
static void job_dpd_reachable() {
    typedef DirichletProcessDiscrete DPD; typedef pb::DirichletProcessDiscrete::Shared Msg;
    std::function<void(const DPD::Shared &, int)> dfs = [&](const DPD::Shared & s, int depth) {
        state();
        Msg m = dumped<Msg>(s), w = wire(m);
        for (int used = 0; used < 2; ++used) {
            Step st("save and load");
            DPD::Shared t; if (used) t = Tr<DPD>::shareds()[1];
            transition(); eval();
            t.protobuf_load(w);
            if (canon(dumped<Msg>(t)) != canon(m)) violation("dpd-shared", "the loaded state dumps different content");
            if (!close(t.beta0, s.beta0, 1e-5)) violation("dpd-shared", MC_S("unused mass " << s.beta0 << " became " << t.beta0));
            // going on: the same new value from the same generator state, one removal
            for (uint32_t v : {0u, 7u, 100u, 5u}) {
                DPD::Shared a(s), b(t); rng_t ra(v + 1), rb(v + 1);
                a.add_value(v, ra); b.add_value(v, rb); transition(2); eval();
                if (ra != rb || !close(a.betas.get(v), b.betas.get(v), 1e-5) || a.counts.get_count(v) != b.counts.get_count(v)) violation("dpd-shared", MC_S("value " << v << " added later differs"));
                DPD::Group g; g.init(a, ra); g.add_value(a, v, ra); DPD::Group h(g);
                for (auto & p : a.betas) { uint32_t x = p.first; if (!close(g.score_value(a, x, ra), h.score_value(b, x, rb), 1e-3, 1e-4)) violation("dpd-shared", MC_S("value " << x << " scores differently under the loaded state")); }
                if (s.counts.get_count(v)) { DPD::Shared c(s), d(t); c.remove_value(v, ra); d.remove_value(v, rb); transition(2); eval(); if (c.betas.size() != d.betas.size() || !close(c.beta0, d.beta0, 1e-5)) violation("dpd-shared", MC_S("value " << v << " removed later differs")); }
            }
        }
        if (!depth) { trace_done(); return; }
        for (uint32_t v : {0u, 7u, 4294967294u}) {
            for (uint64_t x : {uint64_t(1000), RNG_MOD / 2, RNG_MOD - 1000}) {
                Step st(MC_S("add " << v)); DPD::Shared t(s); rng_t r = rng_with_next(x); t.add_value(v, r); dfs(t, depth - 1);
                if (s.betas.contains(v)) break;
            }
            if (s.betas.contains(v)) { Step st(MC_S("remove " << v)); DPD::Shared t(s); rng_t r; t.remove_value(v, r); dfs(t, depth - 1); }
        }
    };
    for (float gamma : {.5f, 1.f, 8.f}) { Context c(MC_S("dpd gamma " << gamma)); DPD::Shared s; s.gamma = gamma; s.alpha = 2; s.beta0 = 1; dfs(s, thorough() ? 5 : 4); }
}
int main(int argc, char ** argv) {
    Jobs jobs;
    const int d = thorough() ? 6 : 4, more = thorough() ? 3 : 2;
    add_jobs<BetaBernoulli>(jobs, d, more); add_jobs<BetaNegativeBinomial>(jobs, d, more); add_jobs<DirichletDiscrete<256>>(jobs, std::min(d, 4), more);
    add_jobs<DirichletDiscrete<5>>(jobs, d, more); add_jobs<DirichletProcessDiscrete>(jobs, d, more); add_jobs<GammaPoisson>(jobs, d, more); add_jobs<NormalInverseChiSq>(jobs, d, more);
    jobs.push_back({"extremes", job_extremes}); jobs.push_back({"shareds", job_shareds}); jobs.push_back({"shapes", job_shapes});
    jobs.push_back({"clustering", job_clustering}); jobs.push_back({"dpd-shared", job_dpd_reachable});
    return main_(argc, argv, jobs);
}
