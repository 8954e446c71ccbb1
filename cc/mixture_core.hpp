// A mixture under exploration next to its reference: a plain list of data bags.
#pragma once
#include "models.hpp"
#include <deque>
namespace mc {
struct Buf {   // caller's score buffer, prefilled so that accumulation shows
    VectorFloat v;
    explicit Buf(size_t n) : v(n) { for (size_t i = 0; i < n; ++i) v[i] = fill(i); }
    static float fill(size_t i) { return -1.5f + .25f * (i % 7); }
};
template<class M> struct Fresh {   // memo of what a fresh group with that bag scores
    struct E { vector<float> score; float data; Fields dump; };
    typename M::Shared shared;
    vector<typename M::Value> vals;
    rng_t rng;
    std::map<Bag, E> memo;
    void set(const typename M::Shared & s) { shared = s; vals.clear(); memo.clear(); for (auto v : Tr<M>::values(s)) vals.push_back(v); }
    const E & of(const Bag & n) {
        auto i = memo.find(n);
        if (i != memo.end()) return i->second;
        auto g = fresh<M>(shared, n);
        E e;
        for (auto v : vals) { typename M::Value x = v; e.score.push_back(g.score_value(shared, x, rng)); }
        e.data = g.score_data(shared, rng);
        e.dump = dump<M>(g);
        return memo[n] = e;
    }
};
// float's share of the cancelling log-gamma terms of large groups
inline double slack(const Bag & b) { double n = 0; for (int k : b) n += k; return n < 100 ? 0 : 4e-6 * n * std::log(n); }
// drift: what running float sums may have lost over a long history of removals
template<class M, class Mix> void check_mixture(const char * what, const Mix & mix, const typename M::Shared & shared, Fresh<M> & fr, const vector<Bag> & bags, bool data = true, double drift = 0) {
    typedef Tr<M> T;
    rng_t rng;
    if (mix.groups().size() != bags.size()) {
        violation(MC_S(what << T::name() << "-size"), MC_S("mixture has " << mix.groups().size() << " groups, expected " << bags.size()));
        return;
    }
    eval();
    const bool cancels = T::name() == std::string("gp") || T::name() == std::string("bnb");   // the others' value scores are logs of ratios
    for (size_t i = 0; i < fr.vals.size(); ++i) {
        typename M::Value x = fr.vals[i];
        Buf buf(bags.size());
        mix.score_value(shared, x, buf.v, rng);
        for (size_t g = 0; g < bags.size(); ++g) {
            float want = fr.of(bags[g]).score[i];
            float got = mix.score_value_group(shared, g, x, rng);
            const double tol = T::tol() + (cancels ? slack(bags[g]) : 0);
            if (!close(got, want, tol, 1e-4))
                violation(MC_S(what << T::name() << "-score_value_group"), MC_S("value #" << i << " group " << g << " of " << bags.size() << " holding " << bag_s(bags[g]) << " scores " << got << ", on its own " << want));
            float acc = buf.v[g] - Buf::fill(g);
            if (!close(acc, want, tol, 1e-4))
                violation(MC_S(what << T::name() << "-score_value"), MC_S("value #" << i << " group " << g << " of " << bags.size() << " holding " << bag_s(bags[g]) << " adds " << acc << " to the score vector, on its own " << want));
        }
    }
    if (data) {
        double sum = 0, more = 0;
        for (auto & b : bags) { sum += fr.of(b).data; more += slack(b); }
        float got = mix.score_data(shared, rng);
        if (!close(got, sum, T::tol() * (1 + bags.size()) + more + drift, 1e-4))
            violation(MC_S(what << T::name() << "-score_data"), MC_S("score_data " << got << ", sum over groups " << sum));
    }
    for (size_t g = 0; g < bags.size(); ++g)
        if (!fields_close(dump<M>(mix.groups(g)), fr.of(bags[g]).dump, 1e-3 + drift, 1e-4))
            violation(MC_S(what << T::name() << "-group"), MC_S("group " << g << " dumps " << fields_s(dump<M>(mix.groups(g))) << ", its data give " << fields_s(fr.of(bags[g]).dump)));
}
}  // namespace mc
