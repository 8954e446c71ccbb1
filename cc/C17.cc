// C17: the vector kernels at every length, and the aligned allocator.
#include "mc.hpp"
#include <iostream>
#include <mutex>
#include <sys/mman.h>
#include <distributions/special.hpp>
#include <distributions/vector_math.hpp>
#include <distributions/vector.hpp>
using namespace mc;
using namespace distributions;
// an array of n floats with inaccessible memory right behind it (or right before it,
// up to the alignment of a float), and a copy of what it held
struct Guarded {
    char * base; size_t pages, n; float * p; std::vector<float> margin;
    enum { PAGE = 4096, AHEAD = 24 };
    Guarded(size_t n_, bool at_start, size_t offset) : n(n_) {
        pages = (n * 4 + offset * 4 + PAGE - 1) / PAGE + 1;
        base = (char *)mmap(nullptr, (pages + 2) * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED || mprotect(base + PAGE, pages * PAGE, PROT_READ | PROT_WRITE)) { perror("mmap"); abort(); }
        float * lo = (float *)(base + PAGE), * hi = (float *)(base + PAGE + pages * PAGE);
        p = at_start ? lo + offset : hi - n - offset;
        for (float * q = lo; q < hi; ++q) *q = 12345.f;
    }
    ~Guarded() { munmap(base, (pages + 2) * PAGE); }
    bool margins_kept() const {
        for (const float * q = (float *)(base + PAGE); q < (float *)(base + PAGE + pages * PAGE); ++q) if ((q < p || q >= p + n) && *q != 12345.f) return false;
        return true;
    }
    Guarded(const Guarded &) = delete;
};
typedef std::vector<double> D;
struct Kernel {
    const char * name;
    int inputs;         // arrays besides io / in
    bool writes_io;     // first array is in and out
    bool second_out;    // first array is input, result goes to another
    std::function<double(size_t, float *, float *, float *, float)> call;     // arrays io, a, b; scalar
    std::function<double(double, double, double, float)> element;              // one element of the result
    double rel;         // tolerance relative to the magnitudes involved
};
static double f32(double x) { return (float)x; }
static std::vector<Kernel> elementwise() {
    std::vector<Kernel> k;
    typedef double d;
    const double e = 2.5e-7;
#define K(NAME, IN, CALL, ELEM) k.push_back({NAME, IN, true, false, [](size_t n, float * io, float * a, float * b, float c) { (void)a; (void)b; (void)c; CALL; return 0.; }, [](d io, d a, d b, float c) { (void)io; (void)a; (void)b; (void)c; return ELEM; }, e})
    K("vector_zero", 0, vector_zero(n, io), 0.);
    K("vector_shift", 0, vector_shift(n, io, c), io + c);
    K("vector_scale", 0, vector_scale(n, io, c), io * c);
    K("vector_negate", 0, vector_negate(n, io), -io);
    K("vector_add", 1, vector_add(n, io, a), io + a);
    K("vector_negate_and_add", 1, vector_negate_and_add(n, io, a), a - io);
    K("vector_add_add", 2, vector_add_add(n, io, a, b), io + a + b);
    K("vector_add_subtract", 2, vector_add_subtract(n, io, a, b), io + a - b);
    K("vector_add_subtract scalar", 2, vector_add_subtract(n, io, c, b), io + (d)c - b);
    K("vector_multiply_add", 2, vector_multiply_add(n, io, a, b), io + a * b);
    K("vector_exp in place", 0, vector_exp(n, io), (d)fast_exp((float)io));
    K("vector_log in place", 0, vector_log(n, io), (d)fast_log(std::fabs((float)io)));
    K("vector_lgamma in place", 0, vector_lgamma(n, io), (d)fast_lgamma(std::fabs((float)io)));
    K("vector_lgamma_nu in place", 0, vector_lgamma_nu(n, io), (d)fast_lgamma_nu(std::fabs((float)io)));
    K("vector_exp", 1, vector_exp(n, a, io), (d)fast_exp((float)a));
    K("vector_log", 1, vector_log(n, a, io), (d)fast_log(std::fabs((float)a)));
    K("vector_lgamma", 1, vector_lgamma(n, a, io), (d)fast_lgamma(std::fabs((float)a)));
    K("vector_lgamma_nu", 1, vector_lgamma_nu(n, a, io), (d)fast_lgamma_nu(std::fabs((float)a)));
#undef K
    return k;
}
static bool positive_only(const std::string & n) { return n.find("log") != std::string::npos || n.find("gamma") != std::string::npos; }
// contents: a plain pattern with one distinguished element
static float content(size_t i, int which, bool positive) {
    static const float v[] = {1.5f, -2.25f, .125f, 7.f, -31.5f, 3.f, .75f, -.0625f, 40.f, 12.5f, -5.f};
    float x = v[(i * (which + 2) + which) % 11];
    return positive ? std::fabs(x) : x;
}
static void fill(Guarded & g, int which, bool positive, size_t at, float mark) {
    for (size_t i = 0; i < g.n; ++i) g.p[i] = content(i, which, positive);
    if (at < g.n) g.p[at] = positive ? std::fabs(mark) : mark;
}
static std::vector<size_t> places(size_t n) {
    std::vector<size_t> r;
    if (n <= 70 || thorough()) for (size_t i = 0; i < n; ++i) r.push_back(i);
    else for (size_t i : {(size_t)0, n / 2, n - 9, n - 8, n - 5, n - 4, n - 3, n - 2, n - 1}) r.push_back(i);
    if (!n) r.push_back(0);
    return r;
}
static size_t top() { return thorough() ? 300 : 70; }
static std::vector<size_t> lengths() { std::vector<size_t> r; for (size_t n = 0; n <= top(); ++n) r.push_back(n); for (size_t n : {1000, 1023, 1025, 4099}) r.push_back(n); return r; }
static void job_elementwise(int part, int parts) {
    auto ks = elementwise();
    for (size_t q = part; q < ks.size(); q += parts) {
        auto & k = ks[q];
        const bool pos = positive_only(k.name);
        for (size_t n : lengths()) for (int layout = 0; layout < 6; ++layout) {
            // ends on the guard page, starts on it, and at odd offsets from either
            const bool start = layout & 1;
            const size_t off = layout / 2;
            Guarded io(n, start, off), a(n, start, (off * 3 + 1) % 4 * (layout > 1)), b(n, start, (off * 5 + 2) % 4 * (layout > 1));
            for (size_t at : places(n)) for (float mark : {97.f, -1e-3f}) {
                fill(io, 0, pos, at, mark); fill(a, 1, pos, k.inputs ? at : n, -mark); fill(b, 2, pos, n ? (at + 1) % n : n, 2 * mark);
                std::vector<float> io0(io.p, io.p + n), a0(a.p, a.p + n), b0(b.p, b.p + n);
                const float c = mark * .5f;
                transition(); eval();
                k.call(n, io.p, a.p, b.p, c);
                for (size_t i = 0; i < n; ++i) {
                    double want = k.element(io0[i], a0[i], b0[i], c), tol = k.rel * (std::fabs(want) + std::fabs(io0[i]) + (k.inputs ? std::fabs(a0[i]) + std::fabs(b0[i]) + std::fabs((double)a0[i] * b0[i]) : 0) + std::fabs(c));
                    if (std::string(k.name) == "vector_negate" || std::string(k.name) == "vector_zero") tol = 0;
                    if (!(std::fabs(io.p[i] - want) <= tol) || !finite(io.p[i])) { violation(k.name, MC_S(k.name << " of length " << n << ": element " << i << " is " << io.p[i] << ", expected " << want << " (layout " << layout << ", distinguished element " << at << " = " << mark << ")")); break; }
                }
                if (n && (memcmp(a.p, a0.data(), n * 4) || memcmp(b.p, b0.data(), n * 4))) violation("inputs", MC_S(k.name << " of length " << n << " changes an input"));
            }
            state(); trace_done();
            if (!io.margins_kept() || !a.margins_kept() || !b.margins_kept()) violation("margins", MC_S(k.name << " of length " << n << " writes outside its range (layout " << layout << ")"));
        }
        sample(k.name);
    }
}
static void job_reductions() {
    for (size_t n : lengths()) for (int layout = 0; layout < 6; ++layout) {
        const bool start = layout & 1;
        const size_t off = layout / 2;
        Guarded a(n, start, off), b(n, start, (off + 1) % 4 * (layout > 1));
        for (size_t at : places(n)) for (float mark : {97.f, -97.f, 1e-3f, -INFINITY, -1e30f}) {
            fill(a, 0, false, at, mark); fill(b, 1, false, n, 0);
            double sum = 0, dot = 0, asum = 0, adot = 0, mn = INFINITY, mx = -INFINITY;
            float fmn = n ? a.p[0] : 0, fmx = fmn;
            for (size_t i = 0; i < n; ++i) { double x = a.p[i], y = b.p[i]; sum += x; asum += std::fabs(x); dot += x * y; adot += std::fabs(x * y); if (a.p[i] < fmn) fmn = a.p[i]; if (a.p[i] > fmx) fmx = a.p[i]; }
            (void)mn; (void)mx;
            transition(4); eval();
            if (n) {
                float gmin = vector_min(n, a.p), gmax = vector_max(n, a.p);
                if (memcmp(&gmin, &fmn, 4)) violation("vector_min", MC_S("vector_min of length " << n << " is " << gmin << ", expected " << fmn << " (element " << at << " = " << mark << ")"));
                if (memcmp(&gmax, &fmx, 4)) violation("vector_max", MC_S("vector_max of length " << n << " is " << gmax << ", expected " << fmx << " (element " << at << " = " << mark << ")"));
            }
            if (finite(mark)) {
                float s = vector_sum(n, a.p), d = vector_dot(n, a.p, b.p);
                if (!close(s, sum, 1e-7 * (n + 1) * asum)) violation("vector_sum", MC_S("vector_sum of length " << n << " is " << s << ", expected " << sum << " (element " << at << " = " << mark << ")"));
                if (!close(d, dot, 1e-7 * (n + 1) * adot)) violation("vector_dot", MC_S("vector_dot of length " << n << " is " << d << ", expected " << dot << " (element " << at << " = " << mark << ")"));
            }
        }
        state(); trace_done();
        if (!a.margins_kept() || !b.margins_kept()) violation("margins", MC_S("a reduction of length " << n << " writes outside its range"));
    }
}
static bool aligned(const void * p, size_t a) { return ((size_t)p & (a - 1)) == 0; }
template<class T, size_t A> void allocator(size_t max) {
    aligned_allocator<T, A> alloc;
    std::vector<std::pair<T *, size_t>> live;
    for (size_t n = 1; n <= max; ++n) {
        T * p = alloc.allocate(n);
        transition(); eval();
        if (!aligned(p, A)) violation("alignment", MC_S("allocate(" << n << ") of " << sizeof(T) << "-byte elements is not aligned to " << A));
        for (size_t i = 0; i < n; ++i) alloc.construct(p + i, T(i % 100));
        live.push_back({p, n});
        if (n % 3 == 0) { alloc.deallocate(live[n / 3].first, live[n / 3].second); live[n / 3].first = nullptr; }
    }
    for (auto & l : live) if (l.first) {
        for (size_t i = 0; i < l.second; ++i) if (!(l.first[i] == T(i % 100))) { violation("allocator-overlap", MC_S("memory of " << l.second << " elements changed")); break; }
        alloc.deallocate(l.first, l.second);
    }
    trace_done(); state(max);
}
static void job_allocator() {
    allocator<float, default_alignment>(thorough() ? 4000 : 800);
    allocator<double, default_alignment>(400);
    allocator<char, default_alignment>(400);
    allocator<float, 64>(200);
    allocator<float, 16>(200);
    // vectors stay aligned through every short history of growth, copy and move
    std::function<void(VectorFloat &, std::vector<float> &, int)> go = [&](VectorFloat & v, std::vector<float> & ref, int depth) {
        eval(); state();
        if (!v.empty() && !aligned(v.data(), 32)) violation("alignment", MC_S("a vector of size " << v.size() << " is not aligned"));
        if (v.size() != ref.size() || !std::equal(ref.begin(), ref.end(), v.begin())) violation("vector-content", "a vector does not hold what was put in");
        if (v.size()) { AlignedFloats a(v); if (a.size() != v.size() || a.data() != v.data() || a[v.size() - 1] != ref.back()) violation("aligned-view", "AlignedFloats does not show the vector"); }
        if (!depth) { trace_done(); return; }
        for (int op = 0; op < 8; ++op) {
            VectorFloat w(v); std::vector<float> r(ref);
            transition();
            switch (op) {
                case 0: w.packed_add(3.f); r.push_back(3.f); break;
                case 1: w.packed_add() = 4.f; r.push_back(4.f); break;
                case 2: w.resize(w.size() + 5); r.resize(r.size() + 5); break;
                case 3: if (r.empty()) continue; w.packed_remove(0); r[0] = r.back(); r.pop_back(); break;
                case 4: if (r.empty()) continue; w.packed_remove(r.size() - 1); r.pop_back(); break;
                case 5: { VectorFloat x(std::move(w)); w = VectorFloat(2); w.swap(x); break; }
                case 6: { VectorFloat x(7, .5f); x = w; w = std::move(x); break; }
                case 7: w.shrink_to_fit(); w.reserve(w.size() + 9); break;
            }
            Step s(MC_S(op));
            go(w, r, depth - 1);
        }
    };
    VectorFloat v; std::vector<float> r;
    go(v, r, thorough() ? 7 : 6);
}
int main(int argc, char ** argv) {
    Jobs jobs;
    for (int i = 0; i < 6; ++i) jobs.push_back({MC_S("elementwise/" << i), [=] { job_elementwise(i, 6); }});
    jobs.push_back({"reductions", job_reductions});
    jobs.push_back({"allocator", job_allocator});
    return main_(argc, argv, jobs);
}
