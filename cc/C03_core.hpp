// C03: predictive scores are normalised over the whole value domain.
#pragma once
#include "grids.hpp"
#include <unordered_set>
using namespace mc;

// all group states: every multiset over the alphabet up to a size, and large ones
inline vector<Bag> bags_up_to(size_t vals, int total, bool large) {
    vector<Bag> r, frontier = {Bag(vals, 0)};
    std::set<Bag> seen(frontier.begin(), frontier.end());
    r = frontier;
    for (int t = 0; t < total; ++t) {
        vector<Bag> next;
        for (auto & b : frontier) for (size_t v = 0; v < vals; ++v) { Bag c = b; ++c[v]; if (seen.insert(c).second) next.push_back(c); }
        r.insert(r.end(), next.begin(), next.end());
        frontier = next;
    }
    if (large) for (size_t v = 0; v < vals; ++v) { Bag b(vals, 0); b[v] = 50; r.push_back(b); b[0] += 7; r.push_back(b); }
    return r;
}
template<class M> struct State {
    typename M::Shared s;
    typename M::Group g;
    Bag n;
    vector<typename M::Value> vals;
    rng_t rng;
    double p(typename M::Value x) { eval(); return std::exp((double)g.score_value(s, x, rng)); }
};
inline void verdict(const char * model, double total, double tol, const Bag & n) {
    extra_max(MC_S("largest_error_over_tolerance_" << model), std::fabs(total - 1) / tol);
    if (!close(total, 1, tol)) violation(MC_S(model << "-total"), MC_S("predictive probabilities total " << total << " (expected 1, tolerance " << tol << ") for data " << bag_s(n)));
}
inline void total(State<BetaBernoulli> & st) { verdict("bb", st.p(true) + st.p(false), 2e-4, st.n); }
template<int D> void total_dd(State<DirichletDiscrete<D>> & st) {
    double t = 0;
    for (int v = 0; v < st.s.dim; ++v) t += st.p(v);
    verdict("dd", t, 2e-4, st.n);
}
inline void total(State<DirichletDiscrete<31>> & st) { total_dd<31>(st); }
inline void total(State<DirichletDiscrete<256>> & st) { total_dd<256>(st); }
inline void total(State<DirichletProcessDiscrete> & st) {
    double t = 0, u = 0;
    DirichletProcessDiscrete::Scorer sc;
    sc.init(st.s, st.g, st.rng);
    vector<uint32_t> dom;
    for (auto & b : st.s.betas) dom.push_back(b.first);
    // with no unused mass the 'other' value has probability zero: the log of it
    // is a large negative number rather than -inf
    dom.push_back(DirichletProcessDiscrete::OTHER());
    for (auto v : dom) { t += st.p(v); u += std::exp((double)sc.eval(st.s, v, st.rng)); }
    verdict("dpd", t, 3e-4, st.n);
    verdict("dpd", u, 3e-4, st.n);
}
inline void total(State<GammaPoisson> & st) {
    // negative binomial with mean a/b: sum until the geometric tail is negligible
    double a = st.s.alpha, b = st.s.inv_beta, t = 0;
    for (size_t i = 0; i < st.n.size(); ++i) { a += (double)st.n[i] * st.vals[i]; b += st.n[i]; }
    double mean = a / b, sd = std::sqrt(mean * (1 + 1 / b));
    double last = mean + 12 * sd + 40 * (1 + 1 / b), first = std::max(0.0, mean - 12 * sd);
    double err = 0;
    for (double x = std::floor(first); x < last; ++x) {
        double p = st.p((uint32_t)x);
        t += p;
        err = std::max(err, p * 1.0);
    }
    Bag none = st.n;
    verdict("gp", t, 2 * mag_err(2 * (a + mean + 2 * sd), 2 * (a + mean + 2 * sd) * .5), st.n);
}
inline void total(State<BetaNegativeBinomial> & st) {
    // tail: p(x) ~ C x^-(alpha+1), so the rest after N is p(N) N / alpha
    double a = st.s.alpha + (double)st.s.r * bag_total(st.n), b = st.s.beta;
    for (size_t i = 0; i < st.n.size(); ++i) b += (double)st.n[i] * st.vals[i];
    int N = 600 + 60 * (b + st.s.r) ;
    if (N > 40000) N = 40000;
    double t = 0, full = 0, lastp = 0, lastf = 0;
    for (int x = 0; x < N; ++x) {
        eval();
        const double score = st.g.score_value(st.s, x, st.rng);
        const double p = std::exp(score), f = std::exp(score + omitted<BetaNegativeBinomial>(st.s, x));
        t += p; full += f; lastp = p; lastf = f;
    }
    t += lastp * N / (a + st.s.r - 1); full += lastf * N / a;
    double tol = 6e-3 + 3 * mag_err(2 * (a + 3 * b), 0);
    if (st.s.r == 1 || close(t, 1, tol)) { verdict("bnb", t, tol, st.n); return; }
    if (close(full, 1, tol)) violation("bnb-binomial-coefficient", MC_S("predictive probabilities total " << t << " for r = " << st.s.r << ", data " << bag_s(st.n) << "; with the binomial coefficient " << full));
    else violation("bnb-total", MC_S("predictive probabilities total " << t << ", with the binomial coefficients " << full << ", for r = " << st.s.r << ", data " << bag_s(st.n)));
}
inline void total(State<NormalInverseChiSq> & st) {
    // student t: x = m + w tan(theta), composite Simpson over theta
    double c = bag_total(st.n), m = st.s.mu * (double)st.s.kappa, k = st.s.kappa + c, ss = 0;
    for (size_t i = 0; i < st.n.size(); ++i) m += (double)st.n[i] * st.vals[i];
    m /= k;
    for (size_t i = 0; i < st.n.size(); ++i) ss += st.n[i] * sqr(st.vals[i] - m);
    double w = std::sqrt((st.s.sigmasq * st.s.nu + ss + st.s.kappa * sqr(st.s.mu - m)) / (st.s.nu + c) * (1 + 1 / k));
    const int N = 600;
    double t = 0, h = M_PI / N;
    for (int i = 0; i < N; ++i) {   // midpoint: open at both ends
        double th = -M_PI / 2 + (i + .5) * h, x = m + w * std::tan(th);
        t += st.p((float)x) * w / sqr(std::cos(th)) * h;
    }
    verdict("nich", t, .018 + 2e-4 * (st.s.nu + c), st.n);
}
template<class S> size_t dims(const S &) { return 99; }
inline size_t dims(const DirichletDiscrete<31>::Shared & s) { return s.dim; }
inline size_t dims(const DirichletDiscrete<256>::Shared & s) { return s.dim; }
template<class M> void totals(const vector<typename M::Shared> & all, int part, int parts, int size) {
    size_t states = 0;
    for (size_t i = part; i < all.size(); i += parts) {
        State<M> st;
        st.s = all[i];
        vector<typename M::Value> vals;
        for (auto v : Tr<M>::values(st.s)) vals.push_back(v);
        if (std::string(Tr<M>::name()).substr(0, 2) == "dd" && Tr<M>::values(st.s).size() > 2) vals.resize(std::min<size_t>(vals.size(), dims(st.s)));
        st.vals = vals;
        for (auto & n : bags_up_to(vals.size(), size, true)) {
            Context c(MC_S(Tr<M>::name() << " grid point " << i));
            st.n = n;
            Bag full = n; full.resize(Tr<M>::values(st.s).size(), 0);
            st.g = fresh<M>(st.s, full);
            state(); trace_done(); transition(bag_total(n));
            ++states;
            total(st);
        }
    }
    sample(MC_S(Tr<M>::name() << ": " << states << " group states"));
}
