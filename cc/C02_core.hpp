// C02: score_data = chained predictive scores = closed form, in every order.
#pragma once
#include "grids.hpp"
using namespace mc;

template<class M, class S, class V> void legal(const S &, V &) {}
template<class M> typename std::enable_if<(M::max_dim > 0)>::type legal(const typename M::Shared & s, vector<int> & v) {
    v.erase(std::remove_if(v.begin(), v.end(), [&](int x) { return x >= s.dim; }), v.end());
}
template<class M> struct Chain {
    typedef Tr<M> T;
    typename M::Shared s;
    decltype(T::values(s)) vals;
    rng_t rng;
    double worst = 0;
    std::map<Bag, std::pair<double, vector<double>>> memo;   // closed form: marginal and predictives

    const std::pair<double, vector<double>> & closed(const Bag & n) {
        auto i = memo.find(n);
        if (i != memo.end()) return i->second;
        double m = T::ref(s, n, vals);
        vector<double> p;
        for (size_t v = 0; v < vals.size(); ++v) p.push_back(ref_pred<M>(s, n, vals, v));
        return memo[n] = std::make_pair(m, p);
    }
    void compare(const char * what, double got, double want, double extra, const Bag & n, double tol) {
        eval();
        if (close(got, want + extra, tol, 1e-6)) { worst = std::max(worst, std::fabs(got - want - extra) / tol); return; }
        if (extra != 0 && close(got, want, tol, 1e-6)) {
            violation("bnb-binomial-coefficient", MC_S(what << " for data " << bag_s(n) << " is " << got << ", closed form " << want + extra << ": the binomial coefficients are left out"));
            return;
        }
        violation(MC_S(T::name() << "-" << what), MC_S(what << " for data " << bag_s(n) << " is " << got << ", closed form " << want + extra));
    }
    double omitted_total(const Bag & n) {
        double t = 0;
        for (size_t i = 0; i < n.size(); ++i) if (n[i]) { typename M::Value x = vals[i]; t += n[i] * omitted<M>(s, x); }
        return t;
    }
    void check(const typename M::Group & g, const Bag & n, double chain, bool chained) {
        auto & c = closed(n);
        double w = err_bound(s, n, vals, -1), cw = w;
        for (size_t i = 0; i < n.size(); ++i) cw += n[i] * err_bound(s, n, vals, i);
        float data = g.score_data(s, rng);
        compare("score_data", data, c.first, omitted_total(n), n, w);
        if (chained && !close(data, chain, cw, 1e-6))
            violation(MC_S(T::name() << "-chain"), MC_S("score_data " << data << " but the predictive scores along the way sum to " << chain << " for data " << bag_s(n)));
        typename M::Scorer scorer;
        scorer.init(s, g, rng);
        for (size_t v = 0; v < vals.size(); ++v) {
            typename M::Value x = vals[v];
            float p = g.score_value(s, x, rng);
            compare("score_value", p, c.second[v], omitted<M>(s, x), n, err_bound(s, n, vals, v));
            float q = scorer.eval(s, x, rng);
            eval();
            if (!close(p, q, .5 * err_bound(s, n, vals, v), 1e-6))
                violation(MC_S(T::name() << "-scorer"), MC_S("a reused Scorer gives value #" << v << " " << q << ", the group " << p << " for data " << bag_s(n)));
        }
    }
    void dfs(const typename M::Group & g, Bag & n, double chain, int depth) {
        state();
        check(g, n, chain, true);
        if (!depth) { trace_done(); return; }
        for (size_t v = 0; v < vals.size(); ++v) {
            Step st(MC_S("add #" << v));
            transition();
            typename M::Value x = vals[v];
            double c = chain + g.score_value(s, x, rng);
            typename M::Group h = g;
            h.add_value(s, x, rng);
            ++n[v];
            dfs(h, n, c, depth - 1);
            --n[v];
        }
    }
    void run(const typename M::Shared & shared, int si, int depth, vector<int> repeats) {
        s = shared;
        vals.clear();
        for (auto v : T::values(s)) if (std::find(vals.begin(), vals.end(), v) == vals.end()) vals.push_back(v);
        legal<M>(s, vals);
        Context c(MC_S(T::name() << " grid point " << si));
        typename M::Group g;
        g.init(s, rng);
        Bag n(vals.size(), 0);
        dfs(g, n, 0, depth);
        // large data: every pair of multiplicities
        for (size_t a = 0; a < vals.size(); ++a) for (size_t b = a; b < vals.size(); ++b) for (int ka : repeats) for (int kb : repeats) {
            Step st(MC_S("add #" << a << " x" << ka << ", add #" << b << " x" << kb));
            typename M::Group h;
            h.init(s, rng);
            Bag m(vals.size(), 0);
            for (auto p : {std::make_pair(a, ka), {b, kb}}) {
                typename M::Value x = vals[p.first];
                h.add_repeated_value(s, x, p.second, rng);
                m[p.first] += p.second;
            }
            transition(); state(); trace_done();
            check(h, m, 0, false);
        }
        extra_max(MC_S("largest_difference_over_tolerance_" << T::name()), worst);
    }
};
template<class M> void chain_job(int part, int parts) {
    auto all = Grid<M>::shareds();
    for (size_t i = part; i < all.size(); i += parts) Chain<M>().run(all[i], i, Grid<M>::depth(), {3, 30, 400});
    sample(MC_S(Tr<M>::name() << ": " << all.size() << " hyperparameter settings, all sequences of length <= " << Grid<M>::depth() << " and large repeated data"));
}
