// Adaptors: one trait class per component model, with a hyperparameter set, a
// value alphabet, and a reference marginal likelihood in double precision that
// is a function of the multiset of data alone.
#pragma once
#include "mc.hpp"
#include <random>
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include <iostream>
#include <mutex>
#include <distributions/models/bb.hpp>
#include <distributions/models/bnb.hpp>
#include <distributions/models/dd.hpp>
#include <distributions/models/dpd.hpp>
#include <distributions/models/gp.hpp>
#include <distributions/models/nich.hpp>
#include <distributions/io/protobuf.hpp>

namespace mc {
using namespace distributions;
namespace pb = ::protobuf::distributions;
using std::vector;
typedef vector<int> Bag;   // multiplicity of each alphabet value (negative: debt)

inline double lg(double x) { return std::lgamma(x); }

template<class M> struct Tr;

struct TrBase {
    enum { debt = 0, has_mixture = 1, discrete = 1 };
    static double tol() { return 2e-3; }
};

template<> struct Tr<BetaBernoulli> : TrBase {
    typedef BetaBernoulli M;
    typedef pb::BetaBernoulli Msg;
    static const char * name() { return "bb"; }
    static vector<M::Shared> shareds() {
        vector<M::Shared> r;
        for (auto p : {std::make_pair(.5f, 2.f), {1.f, 1.f}, {3.25f, .125f}}) {
            M::Shared s; s.alpha = p.first; s.beta = p.second; r.push_back(s);
        }
        return r;
    }
    static vector<bool> values(const M::Shared &) { return {true, false}; }
    static double ref(const M::Shared & s, const Bag & n, const vector<bool> & v) {
        double a = s.alpha, b = s.beta;
        for (size_t i = 0; i < n.size(); ++i) (v[i] ? a : b) += n[i];
        return lg(a) - lg(s.alpha) + lg(b) - lg(s.beta) + lg((double)s.alpha + s.beta) - lg(a + b);
    }
    static std::string raw(const M::Group & g) { return MC_S(g.heads << ',' << g.tails); }
};

template<> struct Tr<BetaNegativeBinomial> : TrBase {
    typedef BetaNegativeBinomial M;
    typedef pb::BetaNegativeBinomial Msg;
    static const char * name() { return "bnb"; }
    static vector<M::Shared> shareds() {
        vector<M::Shared> r;
        M::Shared s;
        s.alpha = 3.5f; s.beta = 1.25f; s.r = 1; r.push_back(s);
        s.alpha = 2.f; s.beta = .5f; s.r = 1; r.push_back(s);
        s.alpha = 4.f; s.beta = 2.f; s.r = 3; r.push_back(s);
        return r;
    }
    static vector<uint32_t> values(const M::Shared &) { return {0, 1, 20, 3}; }
    // without the binomial coefficients, as the library defines its scores
    static double ref(const M::Shared & s, const Bag & n, const vector<uint32_t> & v) {
        double a = s.alpha, b = s.beta;
        for (size_t i = 0; i < n.size(); ++i) { a += (double)s.r * n[i]; b += (double)v[i] * n[i]; }
        return lg(a) - lg(s.alpha) + lg(b) - lg(s.beta) + lg((double)s.alpha + s.beta) - lg(a + b);
    }
    static std::string raw(const M::Group & g) { return MC_S(g.count << ',' << g.sum); }
};

template<int D> struct Tr<DirichletDiscrete<D>> : TrBase {
    typedef DirichletDiscrete<D> M;
    typedef pb::DirichletDiscrete Msg;
    static const char * name() { static std::string n = "dd" + std::to_string(D); return n.c_str(); }
    static vector<typename M::Shared> shareds() {
        vector<typename M::Shared> r;
        typename M::Shared s;
        memset((void *)&s, 0, sizeof s);
        s.dim = 3; s.alphas[0] = .5f; s.alphas[1] = 1.5f; s.alphas[2] = 4.f; r.push_back(s);
        s.dim = 3; s.alphas[0] = s.alphas[1] = s.alphas[2] = 1.f; r.push_back(s);
        s.dim = D; for (int i = 0; i < D; ++i) s.alphas[i] = .25f + .125f * (i % 5); r.push_back(s);
        return r;
    }
    static vector<int> values(const typename M::Shared & s) { return {0, s.dim - 1, 1}; }
    static double ref(const typename M::Shared & s, const Bag & n, const vector<int> & v) {
        double r = 0, A = 0, N = 0;
        for (int i = 0; i < s.dim; ++i) A += s.alphas[i];
        for (size_t i = 0; i < n.size(); ++i) {
            r += lg((double)s.alphas[v[i]] + n[i]) - lg(s.alphas[v[i]]);
            N += n[i];
        }
        return r + lg(A) - lg(A + N);
    }
    static std::string raw(const typename M::Group & g) {
        std::string r = MC_S(g.dim << ':' << g.count_sum);
        for (int i = 0; i < g.dim; ++i) if (g.counts[i]) r += MC_S(',' << i << 'x' << g.counts[i]);
        return r;
    }
};

template<> struct Tr<DirichletProcessDiscrete> : TrBase {
    typedef DirichletProcessDiscrete M;
    typedef pb::DirichletProcessDiscrete Msg;
    enum { debt = 1 };
    static const char * name() { return "dpd"; }
    static M::Shared make(float gamma, float alpha, std::map<uint32_t, float> betas) {
        M::Shared s;
        s.gamma = gamma; s.alpha = alpha;
        s.betas.clear(); s.counts.clear();
        double sum = 0;
        for (auto & b : betas) { s.betas.add(b.first, b.second); s.counts.add(b.first, 1); sum += b.second; }
        s.beta0 = std::max(0.0, 1.0 - sum);
        return s;
    }
    static vector<M::Shared> shareds() {
        return {make(.5f, .5f, {{0, .25f}, {1, .125f}, {5, .5f}}),
                make(2.f, 3.f, {{0, .5f}, {1, .01f}, {5, .09f}}),
                make(1.f, 1.f, {{0, .25f}, {1, .25f}, {5, .5f}})};     // no mass left
    }
    static vector<uint32_t> values(const M::Shared &) { return {0, 5, 1}; }
    static double ref(const M::Shared & s, const Bag & n, const vector<uint32_t> & v) {
        double r = 0, N = 0;
        for (size_t i = 0; i < n.size(); ++i) {
            double p = (double)s.alpha * s.betas.get(v[i]);
            r += lg(p + n[i]) - lg(p);
            N += n[i];
        }
        return r + lg(s.alpha) - lg(s.alpha + N);
    }
    static std::string raw(const M::Group & g) {
        std::map<uint32_t, int> m(g.counts.begin(), g.counts.end());
        std::string r = MC_S(g.counts.get_total());
        for (auto & p : m) r += MC_S(',' << p.first << 'x' << p.second);
        return r;
    }
};

template<> struct Tr<GammaPoisson> : TrBase {
    typedef GammaPoisson M;
    typedef pb::GammaPoisson Msg;
    static const char * name() { return "gp"; }
    static vector<M::Shared> shareds() {
        vector<M::Shared> r;
        for (auto p : {std::make_pair(1.f, 1.f), {2.5f, .25f}, {.5f, 3.f}}) {
            M::Shared s; s.alpha = p.first; s.inv_beta = p.second; r.push_back(s);
        }
        return r;
    }
    static vector<uint32_t> values(const M::Shared &) { return {0, 4, 70, 1}; }
    static double ref(const M::Shared & s, const Bag & n, const vector<uint32_t> & v) {
        double a = s.alpha, b = s.inv_beta, lp = 0;
        for (size_t i = 0; i < n.size(); ++i) {
            a += (double)n[i] * v[i]; b += n[i]; lp += n[i] * lg(1.0 + v[i]);
        }
        return lg(a) - lg(s.alpha) + s.alpha * std::log((double)s.inv_beta) - a * std::log(b) - lp;
    }
    static std::string raw(const M::Group & g) {
        uint32_t b; memcpy(&b, &g.log_prod, 4);
        return MC_S(g.count << ',' << g.sum << ',' << b);
    }
};

template<> struct Tr<NormalInverseChiSq> : TrBase {
    typedef NormalInverseChiSq M;
    typedef pb::NormalInverseChiSq Msg;
    enum { discrete = 0 };
    static const char * name() { return "nich"; }
    static vector<M::Shared> shareds() {
        vector<M::Shared> r;
        M::Shared s;
        s.mu = 0; s.kappa = 1; s.sigmasq = 1; s.nu = 1; r.push_back(s);
        s.mu = 1.5f; s.kappa = .25f; s.sigmasq = 2.f; s.nu = 3.5f; r.push_back(s);
        s.mu = -2.f; s.kappa = 4.f; s.sigmasq = .5f; s.nu = 8.f; r.push_back(s);
        return r;
    }
    static vector<float> values(const M::Shared &) { return {-1.f, 2.f, .5f, 10.f}; }
    static double ref(const M::Shared & s, const Bag & n, const vector<float> & v) {
        double c = 0, sum = 0, ss = 0;
        for (size_t i = 0; i < n.size(); ++i) { c += n[i]; sum += (double)n[i] * v[i]; }
        double m = c ? sum / c : 0;
        for (size_t i = 0; i < n.size(); ++i) ss += n[i] * (v[i] - m) * (v[i] - m);
        double k = s.kappa + c, nu = s.nu + c;
        double nss = (double)s.nu * s.sigmasq + ss + c * s.kappa / k * (m - s.mu) * (m - s.mu);
        return lg(.5 * nu) - lg(.5 * s.nu) + .5 * std::log(s.kappa / k)
             + .5 * s.nu * std::log((double)s.nu * s.sigmasq) - .5 * nu * std::log(nss)
             - .5 * c * std::log(M_PI);
    }
    static std::string raw(const M::Group & g) {
        uint32_t a, b; memcpy(&a, &g.mean, 4); memcpy(&b, &g.count_times_variance, 4);
        return MC_S(g.count << ',' << a << ',' << b);
    }
};

template<class V> std::string vs(const V & v) { return MC_S(v); }
template<class V> std::string vss(const vector<V> & v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + vs<V>(v[i]);
    return s + "]";
}

// predictive score of one more v[i] after bag n: ratio of marginals
template<class M, class S, class VV>
double ref_pred(const S & s, Bag n, const VV & v, size_t i) {
    double before = Tr<M>::ref(s, n, v);
    ++n[i];
    return Tr<M>::ref(s, n, v) - before;
}

inline std::string bag_s(const Bag & b) { return vss(b); }
inline int bag_total(const Bag & b) { int t = 0; for (int x : b) t += x; return t; }
inline bool nonneg(const Bag & b) { for (int x : b) if (x < 0) return false; return true; }

// canonical text of a dumped message: sparse lists sorted by key, zero entries
// dropped from dense trailing representation only where the schema is sparse
template<class Msg> struct Canon {
    static std::map<std::string, double> of(const Msg & m);
};
typedef std::map<std::string, double> Fields;
inline Fields fields(const pb::BetaBernoulli::Group & m) {
    return {{"heads", (double)(int64_t)m.heads()}, {"tails", (double)(int64_t)m.tails()}};
}
inline Fields fields(const pb::BetaNegativeBinomial::Group & m) {
    return {{"count", (double)m.count()}, {"sum", (double)m.sum()}};
}
inline Fields fields(const pb::GammaPoisson::Group & m) {
    return {{"count", (double)m.count()}, {"sum", (double)m.sum()}, {"log_prod", m.log_prod()}};
}
inline Fields fields(const pb::NormalInverseChiSq::Group & m) {
    return {{"count", (double)m.count()}, {"mean", m.mean()}, {"ctv", m.count_times_variance()}};
}
inline Fields fields(const pb::DirichletDiscrete::Group & m) {
    Fields f{{"dim", (double)m.counts_size()}};
    for (int i = 0; i < m.counts_size(); ++i) f[MC_S("c" << i)] = (double)(int64_t)m.counts(i);
    return f;
}
inline Fields fields(const pb::DirichletProcessDiscrete::Group & m) {
    Fields f{{"keys", (double)m.keys_size()}, {"values", (double)m.values_size()}};
    for (int i = 0; i < m.keys_size() && i < m.values_size(); ++i) f[MC_S("c" << m.keys(i))] += (double)(int64_t)m.values(i);
    return f;
}
Fields fields(const pb::NormalInverseWishart::Group & m);   // models_niw.hpp
inline std::string fields_s(const Fields & f) {
    std::string s;
    for (auto & p : f) s += MC_S((s.empty() ? "{" : ", ") << p.first << ": " << p.second);
    return s + "}";
}
inline bool fields_close(const Fields & a, const Fields & b, double abs_tol, double rel) {
    if (a.size() != b.size()) return false;
    for (auto & p : a) {
        auto i = b.find(p.first);
        if (i == b.end() || !close(p.second, i->second, abs_tol, rel)) return false;
    }
    return true;
}
template<class M> Fields dump(const typename M::Group & g) {
    typename Tr<M>::Msg::Group m;
    g.protobuf_dump(m);
    return fields(m);
}

template<class M> typename M::Group fresh(const typename M::Shared & s, const Bag & n) {
    rng_t rng(1);
    typename M::Group g;
    g.init(s, rng);
    auto v = Tr<M>::values(s);
    for (size_t i = 0; i < n.size(); ++i)
        for (int k = 0; k < n[i]; ++k) { typename M::Value x = v[i]; g.add_value(s, x, rng); }
    return g;
}
}  // namespace mc
