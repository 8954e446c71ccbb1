// Hyperparameter grids, wider value alphabets and large data bags (C02, C03, C15).
#pragma once
#include "models.hpp"
namespace mc {
template<class M> struct Grid;
template<> struct Grid<BetaBernoulli> {
    static vector<BetaBernoulli::Shared> shareds() {
        vector<BetaBernoulli::Shared> r;
        for (float a : {.05f, .5f, 1.f, 2.5f, 30.f}) for (float b : {.05f, .5f, 1.f, 4.f, 200.f}) { BetaBernoulli::Shared s; s.alpha = a; s.beta = b; r.push_back(s); }
        return r;
    }
    static int depth() { return thorough() ? 15 : 12; }
};
template<> struct Grid<BetaNegativeBinomial> {
    static vector<BetaNegativeBinomial::Shared> shareds() {
        vector<BetaNegativeBinomial::Shared> r;
        for (float a : {3.f, 4.5f, 30.f}) for (float b : {.25f, 1.f, 4.f, 30.f}) for (uint32_t k : {1u, 2u, 5u}) { BetaNegativeBinomial::Shared s; s.alpha = a; s.beta = b; s.r = k; r.push_back(s); }
        for (auto p : {std::make_pair(4.5f, 4.f), {300.f, 2.f}}) for (uint32_t k : {300u, 1000u}) { BetaNegativeBinomial::Shared s; s.alpha = p.first; s.beta = p.second; s.r = k; r.push_back(s); }
        return r;
    }
    static int depth() { return thorough() ? 8 : 6; }
};
template<> struct Grid<GammaPoisson> {
    static vector<GammaPoisson::Shared> shareds() {
        vector<GammaPoisson::Shared> r;
        for (float a : {.1f, .5f, 1.f, 2.5f, 30.f}) for (float b : {.1f, 1.f, 3.f, 30.f}) { GammaPoisson::Shared s; s.alpha = a; s.inv_beta = b; r.push_back(s); }
        return r;
    }
    static int depth() { return thorough() ? 8 : 6; }
};
template<> struct Grid<NormalInverseChiSq> {
    static vector<NormalInverseChiSq::Shared> shareds() {
        vector<NormalInverseChiSq::Shared> r;
        for (float m : {-2.f, 0.f, 20.f}) for (float k : {.05f, 1.f, 10.f}) for (float v : {.05f, 1.f, 25.f}) for (float n : {1.f, 3.5f, 30.f}) {
            NormalInverseChiSq::Shared s; s.mu = m; s.kappa = k; s.sigmasq = v; s.nu = n; r.push_back(s);
        }
        return r;
    }
    static int depth() { return thorough() ? 7 : 5; }
};
template<int D> struct Grid<DirichletDiscrete<D>> {
    static vector<typename DirichletDiscrete<D>::Shared> shareds() {
        vector<typename DirichletDiscrete<D>::Shared> r;
        for (int dim : {1, 2, 3, 5, 31, D}) {
            if (dim > D) continue;
            for (int k = 0; k < 5; ++k) {
                typename DirichletDiscrete<D>::Shared s;
                memset((void *)&s, 0, sizeof s);
                s.dim = dim;
                for (int i = 0; i < dim; ++i) s.alphas[i] = k == 0 ? .5f : k == 1 ? .05f * (1 + i % 4) : k == 2 ? 1.f + i % 9 : k == 3 ? 8.f / dim : i % 3 == 1 ? .02f : 1e-3f;
                r.push_back(s);
            }
        }
        return r;
    }
    static int depth() { return D > 100 ? (thorough() ? 6 : 4) : (thorough() ? 9 : 7); }
};
template<> struct Grid<DirichletProcessDiscrete> {
    static vector<DirichletProcessDiscrete::Shared> shareds() {
        vector<DirichletProcessDiscrete::Shared> r;
        for (float g : {.5f, 5.f}) for (float a : {.05f, .5f, 3.f, 100.f})
            for (auto & b : vector<std::map<uint32_t, float>>{{{0, .25f}, {1, .125f}, {5, .5f}}, {{0, .5f}, {1, .01f}, {5, .09f}}, {{0, .25f}, {1, .25f}, {5, .5f}}, {{0, 1e-3f}, {1, .3f}, {5, .6f}, {4000000000u, .05f}}})
                r.push_back(Tr<DirichletProcessDiscrete>::make(g, a, b));
        return r;
    }
    static int depth() { return thorough() ? 9 : 7; }
};
// Accuracy to expect of a score: fast_log is good to 6.2e-5 absolute, fast_lgamma
// to 7e-6 of its argument, fast_lgamma_nu to 0.016; each times its coefficient.
// next = index of the value scored, or -1 for score_data.
inline double mag_err(double mag, double log_coeff) { return 1e-3 + 2.5e-5 * mag + 1e-4 * log_coeff; }
template<class V> double value_sum(const Bag & n, const V & v, int next) {
    double s = next >= 0 ? (double)v[next] : 0;
    for (size_t i = 0; i < n.size(); ++i) s += (double)n[i] * v[i];
    return s;
}
inline double err_bound(const BetaBernoulli::Shared & s, const Bag & n, const vector<bool> &, int next) { return next >= 0 ? 2e-4 : mag_err(s.alpha + s.beta + bag_total(n), 0); }
inline double err_bound(const BetaNegativeBinomial::Shared & s, const Bag & n, const vector<uint32_t> & v, int next) {
    return mag_err(2 * (s.alpha + s.beta + s.r * (bag_total(n) + 1.0) + value_sum(n, v, next)), 0);
}
inline double err_bound(const GammaPoisson::Shared & s, const Bag & n, const vector<uint32_t> & v, int next) {
    double a = s.alpha + value_sum(n, v, next);
    return mag_err(2 * a, 2 * a);
}
template<int D, class S> double err_bound_dd(const S & s, const Bag & n, int next) {
    double A = 0; for (int i = 0; i < s.dim; ++i) A += s.alphas[i];
    return next >= 0 ? 2e-4 : mag_err(2 * (A + bag_total(n)), 0);
}
inline double err_bound(const DirichletDiscrete<4>::Shared & s, const Bag & n, const vector<int> &, int next) { return err_bound_dd<4>(s, n, next); }
inline double err_bound(const DirichletDiscrete<31>::Shared & s, const Bag & n, const vector<int> &, int next) { return err_bound_dd<31>(s, n, next); }
inline double err_bound(const DirichletDiscrete<256>::Shared & s, const Bag & n, const vector<int> &, int next) { return err_bound_dd<256>(s, n, next); }
inline double err_bound(const DirichletProcessDiscrete::Shared & s, const Bag & n, const vector<uint32_t> &, int next) { return next >= 0 ? 2e-4 : mag_err(2 * (s.alpha + bag_total(n)), 0); }
inline double err_bound(const NormalInverseChiSq::Shared & s, const Bag & n, const vector<float> &, int next) {
    return mag_err(2 * (s.nu + bag_total(n)), 2 * (s.nu + bag_total(n))) + (next >= 0 ? .017 : 0);
}
inline double log_binom(double n, double k) { return lg(n + 1) - lg(k + 1) - lg(n - k + 1); }
// terms of the likelihood the library leaves out (its known finding): per value
template<class M> double omitted(const typename M::Shared &, const typename M::Value &) { return 0; }
template<> inline double omitted<BetaNegativeBinomial>(const BetaNegativeBinomial::Shared & s, const uint32_t & x) { return log_binom(s.r + (double)x - 1, x); }
}  // namespace mc
