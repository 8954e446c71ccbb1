// C05: grid scoring of hyperparameters matches scoring them one at a time.
#include "mixture_core.hpp"
using namespace mc;

// settings to combine into grids: same domain, every field varied alone and together
static vector<BetaBernoulli::Shared> grid(BetaBernoulli::Shared s) {
    vector<BetaBernoulli::Shared> r(5, s);
    r[1].alpha = 2.5f; r[2].beta = .25f; r[3].alpha = 20.f; r[3].beta = 30.f; r[4].alpha = s.beta; r[4].beta = s.alpha;
    return r;
}
static vector<BetaNegativeBinomial::Shared> grid(BetaNegativeBinomial::Shared s) {
    vector<BetaNegativeBinomial::Shared> r(5, s);
    r[1].alpha = 2.5f; r[2].beta = .25f; r[3].r += 2; r[4].alpha = 20.f; r[4].beta = 30.f;
    return r;
}
static vector<GammaPoisson::Shared> grid(GammaPoisson::Shared s) {
    vector<GammaPoisson::Shared> r(5, s);
    r[1].alpha = 2.5f; r[2].inv_beta = .5f; r[3].alpha = 20.f; r[3].inv_beta = 30.f; r[4].alpha = .125f;
    return r;
}
static vector<NormalInverseChiSq::Shared> grid(NormalInverseChiSq::Shared s) {
    vector<NormalInverseChiSq::Shared> r(5, s);
    r[1].mu += 2.f; r[2].kappa *= 3; r[3].sigmasq *= .25f; r[4].nu += 2.5f; r[4].mu -= 1;
    return r;
}
template<int D> static vector<typename DirichletDiscrete<D>::Shared> grid(const typename DirichletDiscrete<D>::Shared & s) {
    vector<typename DirichletDiscrete<D>::Shared> r(9, s);
    r[1].alphas[0] += 1.f;
    r[2].alphas[s.dim - 1] *= .5f;
    for (int i = 0; i < s.dim; ++i) r[3].alphas[i] = .125f + i % 3;
    for (int i = 0; i < s.dim; ++i) r[4].alphas[i] *= 8;
    r[5].alphas[0] = s.alphas[1]; r[5].alphas[1] = s.alphas[0];
    for (int i = 0; i < s.dim; ++i) r[6].alphas[i] = r[7].alphas[i] = r[8].alphas[i] = 1.f / s.dim;   // totals 1, 2, and 1 split otherwise
    r[7].alphas[0] += 1.f; r[8].alphas[0] *= 1.5f; r[8].alphas[1] *= .5f;
    return r;
}
static vector<DirichletDiscrete<4>::Shared> grid(const DirichletDiscrete<4>::Shared & s) { return grid<4>(s); }
static vector<DirichletDiscrete<256>::Shared> grid(const DirichletDiscrete<256>::Shared & s) { return grid<256>(s); }
static vector<DirichletProcessDiscrete::Shared> grid(const DirichletProcessDiscrete::Shared & s) {
    vector<DirichletProcessDiscrete::Shared> r(5, s);
    r[1].alpha *= 4; r[2].alpha *= .25f; r[2].gamma *= 2;
    r[3] = Tr<DirichletProcessDiscrete>::make(s.gamma, s.alpha, {{0, .125f}, {1, .5f}, {5, .25f}});
    r[4] = Tr<DirichletProcessDiscrete>::make(s.gamma, 2 * s.alpha, {{0, .25f}, {1, .25f}, {5, .25f}});
    return r;
}
template<class M, class Mix> void run(int si, const char * kind) {
    typedef Tr<M> T;
    typedef typename M::Shared S;
    const bool big = sizeof(S) > 500;
    Context c(MC_S(T::name() << " " << kind << " hyperparameters #" << si));
    S base = T::shareds()[si];
    vector<S> set = grid(base);
    const int K = set.size();
    vector<Fresh<M>> fr(K);
    for (int k = 0; k < K; ++k) fr[k].set(set[k]);
    size_t n = fr[0].vals.size();
    rng_t rng;
    // data configurations: bags with counts 0..2 of up to three values, 0..3 groups
    vector<Bag> bags;
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int d = 0; d < (n > 2 ? 2 : 1); ++d) {
        Bag x(n, 0); x[0] = a; x[1] = b; if (n > 2) x[n - 1] = d; bags.push_back(x);
    }
    vector<vector<Bag>> configs = {{}};
    for (size_t i = 0; i < bags.size(); ++i) configs.push_back({bags[i]});
    for (size_t i = 0; i < bags.size(); ++i) for (size_t j = i % 2; j < bags.size(); j += 2) configs.push_back({bags[i], bags[j]});
    for (size_t i = 0; i < bags.size(); i += 2) configs.push_back({bags[0], bags[i], bags[bags.size() - 1 - i]});
    configs.push_back({bags[0], bags[0]});
    // larger groups, and more of them
    size_t small_configs = configs.size();
    auto bag = [&](int a, int b, int d) { Bag x(n, 0); x[0] = a; x[1] = b; if (n > 2) x[n - 1] += d; return x; };
    for (int k : {3, 5, 17, 40, 150}) { configs.push_back({bag(k, 0, 0)}); configs.push_back({bag(1, k, 2), bag(k, k, k)}); }
    configs.push_back({bag(1000, 1, 0), bag(0, 0, 3), bag(30, 200, 5)});
    for (int groups : {4, 5, 8, 9, 16, 17, 33, 65, 130}) {
        vector<Bag> cf;
        for (int g = 0; g < groups; ++g) cf.push_back(bag(g % 3, (g / 3) % 4, g % 5 == 0 ? g / 5 : 0));
        configs.push_back(cf);
    }
    vector<vector<int>> lists = {{}};
    int maxlen = thorough() ? (big ? 3 : 5) : (big ? 2 : 4);
    for (size_t i = 0; i < lists.size(); ++i) if ((int)lists[i].size() < maxlen)
        for (int k = 0; k < (lists[i].size() > 2 ? std::min(K, 6) : K); ++k) { auto l = lists[i]; l.push_back(k); lists.push_back(l); }
    // a longer fixed walk through every ordered pair of settings
    vector<int> walk; for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) { walk.push_back(a); walk.push_back(b); }
    lists.push_back(walk);
    vector<vector<int>> few = {{}, walk};   // the larger configurations: every pair of settings, runs of one setting, many settings
    for (int a = 0; a < K; ++a) { few.push_back({a}); few.push_back(vector<int>(9, a)); for (int b = 0; b < K; ++b) few.push_back({a, b, a}); }
    for (int len : {31, 32, 33, 64, 65, 300}) { vector<int> l; for (int i = 0; i < len; ++i) l.push_back((i * i / 3) % K); few.push_back(l); }
    auto build = [&](const vector<Bag> & cf, int k) {
        Mix m;
        for (auto & b : cf) m.groups().push_back(fresh<M>(set[k], b));
        m.init(set[k], rng);
        return m;
    };
    int ci = 0;
    for (auto & cf : configs) {
        const bool large = (size_t)ci >= small_configs;
        double rows = 0; for (auto & b : cf) rows += bag_total(b);
        const double tol = T::tol() * (1 + cf.size()) + (rows < 100 ? 0 : 4e-6 * rows * std::log(rows));
        ++ci;
        if (big && (large ? ci % 3 : (ci - 1) % 5)) continue;
        std::string cfs; for (auto & b : cf) cfs += bag_s(b);
        Step st("groups hold " + cfs);
        state();
        Mix mix = build(cf, 0);
        vector<float> alone(K);
        for (int k = 0; k < K; ++k) {
            double sum = 0;
            for (auto & b : cf) sum += fr[k].of(b).data;
            alone[k] = build(cf, k).score_data(set[k], rng);
            eval();
            if (!close(alone[k], sum, tol, 1e-4))
                violation(MC_S(T::name() << "-score_data"), MC_S("score_data under setting " << k << " is " << alone[k] << ", its groups sum to " << sum));
        }
        Mix used = mix;   // keeps whatever state scoring leaves behind
        for (auto & l : large ? few : lists) {
            Step st2(MC_S("score_data_grid over settings " << vss(l)));
            transition();
            vector<S> shareds;
            for (int k : l) shareds.push_back(set[k]);
            VectorFloat out(l.size());
            for (auto & x : out) x = 77.f;
            used.score_data_grid(shareds, out, rng);
            eval();
            for (size_t i = 0; i < l.size(); ++i)
                if (!close(out[i], alone[l[i]], tol, 1e-4))
                    violation(MC_S(T::name() << "-grid"), MC_S("entry " << i << " is " << out[i] << ", scoring that setting alone gives " << alone[l[i]]));
            int k = l.empty() ? 0 : l[0];
            float after = used.score_data(set[k], rng);
            if (!close(after, alone[k], tol, 1e-4))
                violation(MC_S(T::name() << "-after"), MC_S("scoring setting " << k << " after the grid gives " << after << ", before " << alone[k]));
            trace_done();
        }
        check_mixture<M, Mix>("value-", used, set[0], fr[0], cf);   // value scores untouched by grids
    }
    sample(MC_S(T::name() << " " << configs.size() << " data configurations x " << lists.size() << " grids of up to " << walk.size() << " settings"));
}
template<class M> void both(int si) { run<M, typename M::FastMixture>(si, "fast"); if (si == 0) run<M, typename M::SmallMixture>(si, "small"); }
int main(int argc, char ** argv) {
    Jobs jobs;
    for (int si = 0; si < 3; ++si) {
#if IN_PART(0)
        jobs.push_back({MC_S("bb/" << si), [=] { both<BetaBernoulli>(si); }});
        jobs.push_back({MC_S("gp/" << si), [=] { both<GammaPoisson>(si); }});
        jobs.push_back({MC_S("nich/" << si), [=] { both<NormalInverseChiSq>(si); }});
#endif
#if IN_PART(1)
        jobs.push_back({MC_S("bnb/" << si), [=] { both<BetaNegativeBinomial>(si); }});
        jobs.push_back({MC_S("dd4/" << si), [=] { both<DirichletDiscrete<4>>(si); }});
#endif
#if IN_PART(2)
        jobs.push_back({MC_S("dpd/" << si), [=] { both<DirichletProcessDiscrete>(si); }});
        if (si == 2) jobs.push_back({"dd256/2", [=] { run<DirichletDiscrete<256>, DirichletDiscrete<256>::FastMixture>(2, "fast"); }});
#endif
    }
    return main_(argc, argv, jobs);
}
