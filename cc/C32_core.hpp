// C32: hyperparameters updated by a group's data stand in for that data.
#pragma once
#include "grids.hpp"
using namespace mc;
// the posterior of a group as hyperparameters: the library's own where it has one
template<class M> typename M::Shared posterior(const typename M::Shared & s, const typename M::Group & g) { return s.plus_group(g); }
template<> BetaBernoulli::Shared posterior<BetaBernoulli>(const BetaBernoulli::Shared & s, const BetaBernoulli::Group & g) { BetaBernoulli::Shared p(s); p.alpha += g.heads; p.beta += g.tails; return p; }
template<class S, class G> S dd_posterior(const S & s, const G & g) { S p(s); for (int i = 0; i < s.dim; ++i) p.alphas[i] += g.counts[i]; return p; }
template<> DirichletDiscrete<4>::Shared posterior<DirichletDiscrete<4>>(const DirichletDiscrete<4>::Shared & s, const DirichletDiscrete<4>::Group & g) { return dd_posterior(s, g); }
template<> DirichletDiscrete<31>::Shared posterior<DirichletDiscrete<31>>(const DirichletDiscrete<31>::Shared & s, const DirichletDiscrete<31>::Group & g) { return dd_posterior(s, g); }
template<> DirichletDiscrete<256>::Shared posterior<DirichletDiscrete<256>>(const DirichletDiscrete<256>::Shared & s, const DirichletDiscrete<256>::Group & g) { return dd_posterior(s, g); }
template<> DirichletProcessDiscrete::Shared posterior<DirichletProcessDiscrete>(const DirichletProcessDiscrete::Shared & s, const DirichletProcessDiscrete::Group & g) {
    DirichletProcessDiscrete::Shared p(s);
    const double n = g.counts.get_total();
    p.alpha = s.alpha + n;
    for (auto & b : s.betas) p.betas.get(b.first) = ((double)s.alpha * b.second + g.counts.get_count(b.first)) / p.alpha;
    p.beta0 = (double)s.alpha * s.beta0 / p.alpha;
    return p;
}
inline Fields hyper(const BetaBernoulli::Shared & s) { return {{"alpha", s.alpha}, {"beta", s.beta}}; }
inline Fields hyper(const GammaPoisson::Shared & s) { return {{"alpha", s.alpha}, {"inv_beta", s.inv_beta}}; }
inline Fields hyper(const BetaNegativeBinomial::Shared & s) { return {{"alpha", s.alpha}, {"beta", s.beta}, {"r", s.r}}; }
inline Fields hyper(const NormalInverseChiSq::Shared & s) { return {{"mu", s.mu}, {"kappa", s.kappa}, {"sigmasq", s.sigmasq}, {"nu", s.nu}}; }
template<class S> Fields hyper_dd(const S & s) { Fields f{{"dim", s.dim}}; for (int i = 0; i < s.dim; ++i) f[MC_S("a" << i)] = s.alphas[i]; return f; }
inline Fields hyper(const DirichletDiscrete<4>::Shared & s) { return hyper_dd(s); }
inline Fields hyper(const DirichletDiscrete<31>::Shared & s) { return hyper_dd(s); }
inline Fields hyper(const DirichletDiscrete<256>::Shared & s) { return hyper_dd(s); }
inline Fields hyper(const DirichletProcessDiscrete::Shared & s) { Fields f{{"alpha", s.alpha}, {"gamma", s.gamma}, {"beta0", s.beta0}}; for (auto & b : s.betas) f[MC_S("b" << b.first)] = b.second; return f; }

template<class M> struct Stages {
    typedef Tr<M> T; typedef typename M::Shared Shared; typedef typename M::Group Group; typedef typename M::Value Value;
    Shared s; decltype(T::values(s)) vals; rng_t rng; double worst = 0;
    Group group(const Shared & h, const Bag & n) {
        Group g; g.init(h, rng);
        for (size_t i = 0; i < n.size(); ++i) { Value x = vals[i]; if (n[i] > 8) g.add_repeated_value(h, x, n[i], rng); else for (int k = 0; k < n[i]; ++k) g.add_value(h, x, rng); }
        return g;
    }
    void compare(const char * what, double got, double want, double tol, const Bag & a, const Bag & b) {
        eval();
        if (close(got, want, tol, 1e-6)) { worst = std::max(worst, std::fabs(got - want) / tol); return; }
        violation(MC_S(T::name() << "-" << what), MC_S(what << " of data " << bag_s(b) << " under the hyperparameters updated by " << bag_s(a) << " is " << got << ", after all the data at once " << want));
    }
    void pair(const Bag & a, const Bag & b) {
        Step st(MC_S("data " << bag_s(a) << " then " << bag_s(b)));
        state(); transition();
        Bag ab(a); for (size_t i = 0; i < a.size(); ++i) ab[i] += b[i];
        const Shared before(s);
        Group ga = group(s, a), gab = group(s, ab);
        const Shared p = posterior<M>(s, ga);
        if (!fields_close(hyper(s), hyper(before), 0, 0)) violation(MC_S(T::name() << "-prior-changed"), "updating changed the hyperparameters it started from");
        Group gb = group(p, b);
        const Shared q = posterior<M>(p, gb), once = posterior<M>(s, gab);
        eval();
        if (!fields_close(hyper(q), hyper(once), 2e-5, 2e-4)) violation(MC_S(T::name() << "-hyperparameters"), MC_S("updated by " << bag_s(a) << " and then " << bag_s(b) << ": " << fields_s(hyper(q)) << ", by all at once: " << fields_s(hyper(once))));
        double w = err_bound(s, ab, vals, -1);
        compare("score_data", gb.score_data(p, rng), (double)gab.score_data(s, rng) - ga.score_data(s, rng), 3 * w, a, b);
        typename M::Scorer x, y; x.init(p, gb, rng); y.init(s, gab, rng);
        for (size_t v = 0; v < vals.size(); ++v) {
            Value z = vals[v]; const double tol = 2 * err_bound(s, ab, vals, v);
            compare("score_value", gb.score_value(p, z, rng), gab.score_value(s, z, rng), tol, a, b);
            compare("Scorer", x.eval(p, z, rng), y.eval(s, z, rng), tol, a, b);
        }
        trace_done();
    }
    void bags(size_t v, int left, Bag & n, vector<Bag> & out) {
        if (v == n.size()) { out.push_back(n); return; }
        for (int k = 0; k <= left; ++k) { n[v] = k; bags(v + 1, left - k, n, out); }
        n[v] = 0;
    }
    void run(const Shared & shared, int si, int size) {
        s = shared;
        vals.clear();
        for (auto v : T::values(s)) if (std::find(vals.begin(), vals.end(), v) == vals.end()) vals.push_back(v);
        legal(s, vals);
        Context c(MC_S(T::name() << " grid point " << si));
        vector<Bag> all; Bag n(vals.size(), 0);
        bags(0, size, n, all);
        // and large data
        for (int k : {20, 300}) if (k < 100 || T::has_mixture) for (size_t v = 0; v < vals.size(); ++v) { Bag b(vals.size(), 1); b[v] = k; all.push_back(b); }
        for (auto & a : all) for (auto & b : all) pair(a, b);
        extra_max(MC_S("largest_difference_over_tolerance_" << T::name()), worst);
    }
    template<class S, class V> static void legal(const S &, V &) {}
    template<class S> static auto legal(const S & s, vector<int> & v) -> decltype((void)s.dim) { v.erase(std::remove_if(v.begin(), v.end(), [&](int x) { return x >= s.dim; }), v.end()); }
};
template<class M> void stages_job(int part, int parts, int size) {
    auto all = Grid<M>::shareds();
    for (size_t i = part; i < all.size(); i += parts) Stages<M>().run(all[i], i, size);
    sample(MC_S(Tr<M>::name() << ": " << all.size() << " hyperparameter settings, all pairs of data multisets of size <= " << size << " and large ones"));
}
