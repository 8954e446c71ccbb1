// C15: sampled observations follow the predictive distribution.
#pragma once
#include "models.hpp"
#include "states.hpp"
#include "grids.hpp"
using namespace mc;
// lower and upper bin edges on a real axis, 0 and N-1 open
struct Cells {
    std::map<long, double> want, got;
    double n = 0;
    void compare(const char * model, double bias, const std::string & where) {
        double total = 0;
        for (auto & w : want) total += w.second;
        if (!close(total, 1, .03)) { violation(MC_S(model << "-reference"), MC_S("the scored probabilities of the domain total " << total << " " << where)); return; }
        for (auto & g : got) want[g.first];
        for (auto & w : want) {
            eval();
            double p = w.second, q = got[w.first] / n, tol = 7 * std::sqrt(std::max(0.0, p * (1 - p)) / n) + bias * p + 1.5e-4 + 8 / n;
            extra_max(MC_S("largest_frequency_error_" << model), std::fabs(p - q));
            if (!close(q, p, tol)) violation(MC_S(model << "-frequency"), MC_S("cell " << w.first << " is sampled in a fraction " << q << " of " << n << " states, its scored probability is " << p << " (tolerance " << tol << ") " << where));
        }
        trace_done();
    }
};
inline vector<Bag> sample_bags(size_t n) {
    vector<Bag> r{Bag(n, 0)};
    for (size_t i = 0; i < n; ++i) { Bag b(n, 0); b[i] = 1; r.push_back(b); }
    Bag b(n, 1); r.push_back(b);
    b[0] = 12; r.push_back(b);
    return r;
}
inline uint64_t orbit_step(bool slow) { return thorough() ? (slow ? 682 : 198) : (slow ? 31 * 331 : 6138); }
// domain(x): the cell of a sampled value, -1 when it is outside the model's domain
template<class M, class CellOf> void run(const char * model, const typename M::Shared & s, const typename M::Group & g, Cells & cells, CellOf cell_of, double bias, bool slow, const std::string & where) {
    rng_t scorer_rng;
    long bad = 0;
    double n = 0;
    Cells via_sampler = cells;
    orbit(orbit_step(slow), [&](rng_t r) {
        transition();
        typename M::Value x = g.sample_value(s, r);
        long c = cell_of(x);
        float score = c == -1 ? 0.f : g.score_value(s, x, scorer_rng);
        if (c == -1 || !finite(score)) { if (!bad++) violation(MC_S(model << "-domain"), MC_S("a sampled value is outside the domain or scores " << score << " (cell " << c << ") " << where)); return; }
        cells.got[c] += 1;
        n += 1;
    });
    cells.n = n;
    cells.compare(model, bias, where);
    // one parameter draw, several evaluations: the first and the last value alike
    typename M::Sampler sampler;
    double m = 0;
    orbit(orbit_step(slow) * 7, [&](rng_t r) {
        transition();
        sampler.init(s, g, r);
        sampler.eval(s, r);
        typename M::Value x = sampler.eval(s, r);
        long c = cell_of(x);
        if (c == -1) { violation(MC_S(model << "-domain"), MC_S("Sampler.eval returns a value outside the domain " << where)); return; }
        via_sampler.got[c] += 1;
        m += 1;
    });
    via_sampler.n = m;
    via_sampler.compare(MC_S(model << "-Sampler").c_str(), bias, where);
    state();
}
