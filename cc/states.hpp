// The generator's states: rng_t has 2^31-2 of them, one for each output.
#pragma once
#include "mc.hpp"
#include <random>
#include <iostream>
#include <mutex>
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include <distributions/random.hpp>
namespace mc {
using namespace distributions;
using std::vector;
static const uint64_t RNG_MOD = 2147483647u, RNG_MUL = 16807u;
inline uint64_t rng_inverse() {
    static uint64_t inv = 0;
    if (!inv) { uint64_t r = 1, b = RNG_MUL, e = RNG_MOD - 2; while (e) { if (e & 1) r = r * b % RNG_MOD; b = b * b % RNG_MOD; e >>= 1; } inv = r; }
    return inv;
}
// the state whose next raw output is x, 1 <= x <= 2^31-2
inline rng_t rng_with_next(uint64_t x) { return rng_t(x * rng_inverse() % RNG_MOD); }
inline uint64_t lattice(uint64_t k, uint64_t n) { return 1 + (uint64_t)((long double)k * (RNG_MOD - 2) / (n > 1 ? n - 1 : 1)); }
// Every q-th state of the generator's cycle (q divides 2^31-2 = 2*9*7*11*31*151*331):
// a coset of a multiplicative subgroup, free of the resonances an even lattice
// has with the generator's multiplier over several successive draws.
template<class F> uint64_t orbit(uint64_t q, F f) {
    if ((RNG_MOD - 1) % q) { fprintf(stderr, "bad orbit step\n"); abort(); }
    uint64_t g = 1, n = (RNG_MOD - 1) / q, x = 1 + (opt().seed * 7919) % 1000003;
    for (uint64_t i = 0; i < q; ++i) g = g * RNG_MUL % RNG_MOD;
    for (uint64_t k = 0; k < n; ++k) { f(rng_with_next(x)); x = x * g % RNG_MOD; }
    return n;
}
// the engine's assumptions above, checked against the library's own type
inline bool rng_as_expected() {
    if (rng_t::min() != 1 || rng_t::max() != RNG_MOD - 1) return false;
    for (uint64_t x : {1ull, 2ull, 12345ull, 2147483646ull}) { rng_t r = rng_with_next(x); if (r() != x) return false; }
    return true;
}
// Exact measure of each outcome of f over all states: the lattice finds the
// intervals, bisection their ends, both ends of the range are taken one by one.
template<class F> std::map<long, double> measure(F f, uint64_t points, uint64_t ends = 64) {
    std::map<long, double> m;
    struct P { uint64_t x; long y; };
    vector<uint64_t> xs;
    for (uint64_t k = 0; k < points; ++k) xs.push_back(lattice(k, points));
    for (uint64_t k = 0; k < ends; ++k) { xs.push_back(1 + k); xs.push_back(RNG_MOD - 1 - k); }
    std::sort(xs.begin(), xs.end());
    xs.erase(std::unique(xs.begin(), xs.end()), xs.end());
    vector<P> todo;
    P last{xs[0], f(xs[0])};
    m[last.y] += 1;
    for (size_t i = 1; i < xs.size(); ++i) {
        P right{xs[i], f(xs[i])};
        P left = last;
        last = right;
        todo.assign(1, right);
        while (!todo.empty()) {   // (left, next] : settle left to right
            P r = todo.back();
            if (r.y == left.y || r.x - left.x <= 1) { m[r.y] += r.x - left.x; left = r; todo.pop_back(); continue; }
            uint64_t mid = (left.x + r.x) / 2;
            todo.push_back({mid, f(mid)});
        }
    }
    for (auto & p : m) p.second /= (RNG_MOD - 1);
    return m;
}
}  // namespace mc
