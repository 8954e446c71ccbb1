namespace Eigen_ { template<class F, int R, int C> struct Matrix; }
#include "C24_core.hpp"
#include "clustering_core.hpp"
template<class Mix, class P> static void clustering(const P & prior, int depth) {
    std::function<void(const Mix &, int)> dfs = [&](const Mix & m, int d) {
        state();
        for (int n : m.counts()) emit_int(n, "group size");
        emit_int(m.sample_size(), "sample size");
        std::set<size_t> e(m.empty_groupids().begin(), m.empty_groupids().end());
        for (auto i : e) emit_int(i, "empty group id");
        VectorFloat f(m.counts().size());
        m.score_value(prior, f);
        for (float z : f) emit_float(z, "assignment score");
        emit_float(m.score_data(prior), "partition score", 1e-3);
        if (!d) { trace_done(); return; }
        for (size_t g = 0; g < m.counts().size(); ++g) for (int k : {1, 3}) {
            { Step s(MC_S("add_value(" << g << ", " << k << ")")); Mix x(m); emit_int(x.add_value(prior, g, k), "add_value"); transition(); dfs(x, d - 1); }
            if (m.counts(g) >= k) { Step s(MC_S("remove_value(" << g << ", " << k << ")")); Mix x(m); emit_int(x.remove_value(prior, g, k), "remove_value"); transition(); dfs(x, d - 1); }
        }
        { Step s("init"); Mix x(m); x.init(prior); transition(); if (d > 1) dfs(x, d - 2); }
    };
    for (auto start : vector<Sizes>{{0}, {2, 0, 0}, {0, 5, 1}}) { Context c("from " + vss(start)); Mix m; m.counts() = start; m.init(prior); dfs(m, depth); }
}
// many groups, large groups and long lives
template<class Mix, class P> static void wide(const P & prior, int limit) {
    for (int size : {1, 4, 15, 16, 17, 40, 100}) {
        Context c(MC_S(size << " groups"));
        Mix m; Sizes n; long total = 0;
        for (int i = 0; i < size; ++i) { int k = i % 3 == 2 ? 0 : i % 13 == 4 ? limit / size / 2 : std::min(i % 6, limit / size / 2); n.push_back(k); total += k; }
        m.counts() = n; m.init(prior);
        for (int step = 0; step < 60 + 2 * size; ++step) {
            size_t g = (step * 5 + 2) % m.counts().size(); int k = step % 9 == 8 ? 50 : 1 + step % 2;
            Step st(MC_S("step " << step)); transition(); state();
            if (step % 3 != 2) { if (total + k < limit) { emit_int(m.add_value(prior, g, k), "add_value"); total += k; } }
            else if (int h = std::min<int>(k, m.counts(g))) { emit_int(m.remove_value(prior, g, h), "remove_value"); total -= h; }
            emit_int(m.counts().size(), "number of groups"); emit_int(m.sample_size(), "sample size");
            for (int x : m.counts()) emit_int(x, "group size");
            std::set<size_t> e(m.empty_groupids().begin(), m.empty_groupids().end());
            for (auto i : e) emit_int(i, "empty group id");
            VectorFloat f(m.counts().size()); m.score_value(prior, f);
            for (float z : f) emit_float(z, "assignment score");
            emit_float(m.score_data(prior), "partition score", 1e-3);
        }
        trace_done();
    }
}
static void job_functions() {
    state();
    for (int e = -20; e <= 30; ++e) for (int k = 0; k < 64; ++k) {
        float x = std::ldexp(1.f + k / 64.f, e); Step st(MC_S("x = " << x)); transition();
        emit_float(fast_log(x), "fast_log", 1e-4); emit_float(std::min(x, 80.f) == x ? fast_exp(-x) : 0, "fast_exp", 1e-4);
        if (x > 1e-3f && x < 1e8f) { emit_float(fast_lgamma(x), "fast_lgamma", 5e-4); emit_float(fast_lgamma_nu(x), "fast_lgamma_nu", 5e-4); }
    }
    for (int n = 0; n < 200; ++n) emit_float(fast_log_factorial(n), "fast_log_factorial", 1e-4);
    for (size_t n = 1; n <= 70; ++n) {
        Step st(MC_S("size " << n)); state(); transition();
        VectorFloat a(n), b(n), c(n); auto fill = [&] { for (size_t i = 0; i < n; ++i) { a[i] = (i * 37 % 19) * .31f - 2; b[i] = (i * 11 % 23) * .17f + .05f; c[i] = i * .5f; } };
        auto emit = [&](const char * what) { for (float x : c) emit_float(x, what); fill(); };
        fill();
        emit_float(log_sum_exp(a), "log_sum_exp"); emit_float(vector_sum(n, b.data()), "vector_sum", 1e-4); emit_float(vector_min(n, b.data()), "vector_min"); emit_float(vector_max(n, b.data()), "vector_max"); emit_float(vector_dot(n, a.data(), b.data()), "vector_dot", 1e-3);
        vector_zero(n, c.data()); emit("vector_zero"); vector_add(n, c.data(), a.data()); emit("vector_add"); vector_add_subtract(n, c.data(), a.data(), b.data()); emit("vector_add_subtract"); vector_multiply_add(n, c.data(), a.data(), b.data()); emit("vector_multiply_add");
        vector_scale(n, c.data(), .3f); emit("vector_scale"); vector_shift(n, c.data(), .3f); emit("vector_shift"); vector_log(n, c.data(), b.data()); emit("vector_log"); vector_exp(n, c.data(), a.data()); emit("vector_exp"); vector_lgamma(n, c.data(), b.data()); emit("vector_lgamma"); vector_lgamma_nu(n, c.data(), b.data()); emit("vector_lgamma_nu");
        c = a; scores_to_likelihoods(c); emit("scores_to_likelihoods"); c = a; scores_to_probs(c); emit("scores_to_probs");
    }
    trace_done();
}
template<class P> static void priors(const P & p, int max) {
    state();
    for (int n = 0; n <= max; ++n) for (unsigned s = 1; s <= 40; ++s) { rng_t r(s * 7907); transition(); for (int a : p.sample_assignments(n, r)) emit_sampled_int(a, "sampled assignment"); emit_rng(r); }
    for (auto & c : vector<Sizes>{{}, {1}, {3, 0, 1}, {1, 2, 3, 4}, {9, 9}}) { int t = 0; for (int x : c) t += x; if (t <= max) emit_float(p.score_counts(c), "partition score", 1e-3); }
    trace_done();
}
static void job_tracker() {
    typedef MixtureIdTracker T;
    std::function<void(const T &, int)> dfs = [&](const T & t, int d) {
        state(); emit_int(t.packed_size(), "packed size"); emit_int(t.global_size(), "global size");
        for (size_t i = 0; i < t.packed_size(); ++i) { auto g = t.packed_to_global(i); emit_int(g, "global id"); emit_int(t.global_to_packed(g), "packed id"); }
        if (!d) { trace_done(); return; }
        { Step s("add_group"); T x(t); x.add_group(); transition(); dfs(x, d - 1); }
        for (size_t i = 0; i < t.packed_size(); ++i) { Step s(MC_S("remove_group(" << i << ")")); T x(t); x.remove_group(i); transition(); dfs(x, d - 1); }
        if (d > 1) { Step s("init(2)"); T x(t); x.init(2); transition(); dfs(x, d - 2); }
    };
    T t; t.init(1); dfs(t, thorough() ? 8 : 7);
}
static void job_counter() {
    typedef SparseCounter<uint32_t, int> C; typedef Sparse_<uint32_t, float> S;
    std::function<void(const C &, const S &, int)> dfs = [&](const C & c, const S & s, int d) {
        state(); emit_int(c.get_total(), "counter total");
        std::map<uint32_t, int> m(c.begin(), c.end()); std::map<uint32_t, float> q(s.begin(), s.end());
        for (auto & p : m) { emit_int(p.first, "counter key"); emit_int(p.second, "count"); }
        for (auto & p : q) { emit_int(p.first, "map key"); emit_float(p.second, "map value"); }
        if (!d) { trace_done(); return; }
        for (uint32_t k : {0u, 5u, 4294967295u}) {
            for (int n : {1, -1, 2}) { Step st(MC_S("counter.add(" << k << ", " << n << ")")); C x(c); emit_int(x.add(k, n), "new count"); transition(); dfs(x, s, d - 1); }
            if (!c.get_count(k)) { { Step st("init_count"); C x(c); x.init_count(k, 4); transition(); dfs(x, s, d - 1); } }
            for (uint32_t j : {0u, 5u}) if (j != k && c.get_count(k) && !c.get_count(j)) { Step st(MC_S("rename(" << k << ", " << j << ")")); C x(c); x.rename(k, j); transition(); dfs(x, s, d - 1); }
            if (!s.contains(k)) { Step st(MC_S("map.add(" << k << ")")); S x(s); x.add(k, d); transition(); dfs(c, x, d - 1); }
            else { { Step st(MC_S("map.pop(" << k << ")")); S x(s); emit_float(x.pop(k), "popped"); transition(); dfs(c, x, d - 1); } { Step st(MC_S("map.remove(" << k << ")")); S x(s); x.remove(k); transition(); dfs(c, x, d - 1); } { Step st(MC_S("map.set(" << k << ")")); S x(s); x.set(k, 10 * d); transition(); dfs(c, x, d - 1); } }
        }
        { Step st("merge with itself"); C x(c); x.merge(c); transition(); if (d > 1) dfs(x, s, d - 2); }
    };
    C c; S s; dfs(c, s, thorough() ? 5 : 4);
}
static void job_weights(float gamma) {
    typedef DirichletProcessDiscrete::Shared S;
    std::function<void(const S &, int)> dfs = [&](const S & s, int d) {
        state(); emit_sampled(s.beta0, "unused mass", 1e-4);
        std::map<uint32_t, float> b(s.betas.begin(), s.betas.end()); std::map<uint32_t, int> c(s.counts.begin(), s.counts.end());
        for (auto & p : b) { emit_int(p.first, "weighted value"); emit_sampled(p.second, "weight", 1e-4); }
        for (auto & p : c) { emit_int(p.first, "counted value"); emit_int(p.second, "use count"); }
        if (!d) { trace_done(); return; }
        for (uint32_t v : {0u, 5u, 4000000000u}) {
            for (unsigned seed : {1u, 777u}) { Step st(MC_S("add(" << v << ") seed " << seed)); S x(s); rng_t r(seed + 31 * d); x.add_value(v, r); emit_rng(r); transition(); dfs(x, d - 1); if (b.count(v)) break; }
            if (b.count(v)) { Step st(MC_S("remove(" << v << ")")); S x(s); rng_t r; x.remove_value(v, r); transition(); dfs(x, d - 1); }
        }
        if (gamma < 3) { Step st("realize"); S x(s); rng_t r(d); x.realize(r); transition(); emit_sampled_int(x.betas.size(), "values after realising"); emit_sampled(x.beta0, "unused mass"); double t = 0; for (auto & p : x.betas) t += p.second; emit_sampled(t, "total weight"); }
    };
    S s; s.gamma = gamma; s.alpha = 1; s.beta0 = 1; dfs(s, thorough() ? 5 : 4);
}
static void job_samplers() {
    const int n = thorough() ? 20000 : 4000;
    state();
    VectorFloat likes, scores; for (float x : {.5f, 0.f, 3.f, 1e-9f, 2.f, 1e6f, .25f}) { likes.push_back(x); scores.push_back(x - 3); } scores[2] = -1e30f; scores[5] = 2;
    for (int i = 1; i <= n; ++i) {
        rng_t r(i * 7919u);
        Step st(MC_S("seed " << i * 7919u));
        transition();
        emit_sampled(sample_unif01(r), "sample_unif01"); emit_sampled_int(sample_int(r, -3, 1000), "sample_int"); emit_sampled_int(sample_bernoulli(r, .3f), "sample_bernoulli");
        emit_sampled(sample_std_normal(r), "sample_std_normal"); emit_sampled(sample_normal(r, 2, 9), "sample_normal"); emit_sampled(sample_gamma(r, .3f, 2), "sample_gamma"); emit_sampled(sample_gamma(r, 30, 2), "sample_gamma");
        emit_sampled(sample_beta(r, .5f, 2), "sample_beta"); emit_sampled(sample_beta_safe(r, 1e-5f, 2, 1e-3f), "sample_beta_safe"); emit_sampled_int(sample_poisson(r, 12), "sample_poisson"); emit_sampled_int(sample_negative_binomial(r, .4f, 3), "sample_negative_binomial");
        emit_sampled(sample_chisq(r, 4), "sample_chisq");
        emit_rng(r);
        emit_sampled_int(sample_from_likelihoods(r, likes), "sample_from_likelihoods"); emit_sampled_int(sample_from_likelihoods(r, likes, 1000005.75f), "sample_from_likelihoods");
        VectorFloat s(scores); emit_sampled_int(sample_from_scores(r, s), "sample_from_scores"); s = scores; emit_sampled_int(sample_from_scores_overwrite(r, s), "sample_from_scores_overwrite");
        auto p = sample_prob_from_scores_overwrite(r, (s = scores)); emit_sampled_int(p.first, "sample_prob_from_scores_overwrite"); emit_sampled(p.second, "sample_prob_from_scores_overwrite");
        float a[4] = {.01f, 2, .5f, 40}, q[4]; sample_dirichlet(r, 4, a, q); for (float x : q) emit_sampled(x, "sample_dirichlet"); sample_dirichlet_safe(r, 4, a, q, 1e-3f); for (float x : q) emit_sampled(x, "sample_dirichlet_safe");
        emit_sampled_int(sample_from_urn(r, vector<int>{4, 5, 6}), "sample_from_urn"); auto u = sample_pair_from_urn(r, vector<int>{4, 5, 6}); emit_sampled_int(u.first * 10 + u.second, "sample_pair_from_urn");
        emit_rng(r);
    }
    emit_float(log_sum_exp(scores), "log_sum_exp");
    trace_done();
}
int main(int argc, char ** argv) {
    Jobs jobs;
    const int t = thorough();
    for (float a : {.1f, 20.f}) for (float d : {0.f, .4f}) { PY p; p.alpha = a; p.d = d; jobs.push_back({MC_S("py/" << a << "/" << d), [=] { clustering<PY::Mixture>(p, 4 + t); clustering<MixtureDriver<PY, int>>(p, 3 + t); priors(p, 60); wide<PY::Mixture>(p, 40000); wide<MixtureDriver<PY, int>>(p, 40000); }}); }
    for (int n : {40, 100000}) { LE p; p.dataset_size = n; jobs.push_back({MC_S("le/" << n), [=] { clustering<LE::Mixture>(p, 4 + t); priors(p, std::min(n, 50)); wide<LE::Mixture>(p, n); }}); }
    jobs.push_back({"functions", job_functions}); jobs.push_back({"tracker", job_tracker}); jobs.push_back({"containers", job_counter}); jobs.push_back({"samplers", job_samplers});
    for (float g : {.2f, 2.f, 50.f}) jobs.push_back({MC_S("weights/" << g), [=] { job_weights(g); }});
    const int n = t ? 4000 : 600;
    add_model<BetaBernoulli>(jobs, 4, n); add_model<BetaNegativeBinomial>(jobs, 3 + t, n); add_model<DirichletDiscrete<16>>(jobs, 3 + t, n); add_model<DirichletProcessDiscrete>(jobs, 3 + t, n); add_model<GammaPoisson>(jobs, 3 + t, n); add_model<NormalInverseChiSq>(jobs, 3 + t, n);
    return main24(argc, argv, jobs);
}
