// C14: sampling is a function of its arguments and of the generator it is given.
#include "models_niw.hpp"
#include "states.hpp"
#include <distributions/clustering.hpp>
#include <malloc.h>
#include <sys/wait.h>
#include <thread>
#include <type_traits>
namespace distributions { extern rng_t global_rng; }
using namespace mc;
typedef std::string Str;
struct Op { Str name; bool samples; std::function<Str(rng_t &)> run; bool edge; };
static vector<Op> OPS;
template<class T> void put(Str & s, const T & x) { s.append((const char *)&x, sizeof x); }
static void put(Str & s, const Str & x) { s += x; s += ';'; }
template<class T> void put_all(Str & s, const T & v) { for (auto x : v) put(s, x); }
static void put_value(Str & s, bool x) { put(s, x); }
static void put_value(Str & s, int x) { put(s, x); }
static void put_value(Str & s, uint32_t x) { put(s, x); }
static void put_value(Str & s, float x) { put(s, x); }
template<class V> void put_value(Str & s, const V & x) { for (int i = 0; i < x.size(); ++i) put(s, (float)x.data()[i]); }
static Str state_of(const rng_t & r) { std::ostringstream o; o << r; return o.str(); }
static void add(const Str & name, bool samples, std::function<Str(rng_t &)> f) { OPS.push_back({name, samples, f, false}); }
static void edge(const Str & name, std::function<Str(rng_t &)> f) { OPS.push_back({name, true, f, true}); }
static VectorFloat vf(std::initializer_list<float> l) { VectorFloat v(l.size()); std::copy(l.begin(), l.end(), v.begin()); return v; }

static void basic_ops() {
    add("sample_int", true, [](rng_t & r) { Str s; put(s, sample_int(r, 0, 6)); put(s, sample_int(r, -5, 1 << 30)); return s; });
    add("sample_unif01", true, [](rng_t & r) { Str s; put(s, sample_unif01(r)); return s; });
    add("sample_bernoulli", true, [](rng_t & r) { Str s; put(s, sample_bernoulli(r, .4f)); put(s, sample_bernoulli(r, .9f)); return s; });
    add("sample_std_normal", true, [](rng_t & r) { Str s; put(s, sample_std_normal(r)); return s; });
    add("sample_normal", true, [](rng_t & r) { Str s; put(s, sample_normal(r, 1.5f, 2.f)); return s; });
    add("sample_chisq", true, [](rng_t & r) { Str s; put(s, sample_chisq(r, 2.5f)); put(s, sample_chisq(r, .5f)); return s; });
    add("sample_poisson", true, [](rng_t & r) { Str s; put(s, sample_poisson(r, 2.5f)); return s; });
    add("sample_poisson large", true, [](rng_t & r) { Str s; put(s, sample_poisson(r, 45.f)); return s; });
    add("sample_negative_binomial", true, [](rng_t & r) { Str s; put(s, sample_negative_binomial(r, .25f, 3)); return s; });
    add("sample_gamma", true, [](rng_t & r) { Str s; put(s, sample_gamma(r, 2.5f)); put(s, sample_gamma(r, .3f, 4.f)); return s; });
    add("sample_beta", true, [](rng_t & r) { Str s; put(s, sample_beta(r, 2.5f, .3f)); return s; });
    add("sample_beta tiny", true, [](rng_t & r) { Str s; put(s, sample_beta(r, .002f, .003f)); return s; });
    add("sample_beta_safe", true, [](rng_t & r) { Str s; put(s, sample_beta_safe(r, 1.f, .3f, 1e-6f)); return s; });
    add("sample_dirichlet", true, [](rng_t & r) { Str s; vector<float> a{.5f, 2.f, 0.f, 1e-3f}, p(4); sample_dirichlet(r, 4, a.data(), p.data()); put_all(s, p); return s; });
    add("sample_dirichlet in place", true, [](rng_t & r) { Str s; vector<float> a{.001f, .002f, .004f}; sample_dirichlet(r, 3, a.data(), a.data()); put_all(s, a); return s; });
    add("sample_dirichlet_safe", true, [](rng_t & r) { Str s; vector<float> a{.5f, 2.f, 0.f}, p(3); sample_dirichlet_safe(r, 3, a.data(), p.data(), .01f); put_all(s, p); return s; });
    typedef Eigen::MatrixXf MX; typedef Eigen::VectorXf VX;
    static MX cov(3, 3); cov << 2, .5f, 0, .5f, 1, .25f, 0, .25f, 3;
    static VX mu(3); mu << 1, -2, 5;
    add("sample_multivariate_normal", true, [](rng_t & r) { Str s; VX x = sample_multivariate_normal(mu, cov, r); put_value(s, x); return s; });
    add("sample_wishart", true, [](rng_t & r) { Str s; MX x = sample_wishart(4.5f, cov, r); put_value(s, x); return s; });
    add("sample_inverse_wishart", true, [](rng_t & r) { Str s; MX x = sample_inverse_wishart(6.f, cov, r); put_value(s, x); return s; });
    add("sample_normal_inverse_wishart", true, [](rng_t & r) { Str s; auto x = sample_normal_inverse_wishart(mu, 2.f, cov, 7.f, r); put_value(s, x.first); put_value(s, x.second); return s; });
    static const vector<int> urn{4, 7, 1, 9, 3};
    add("sample_from_urn", true, [](rng_t & r) { Str s; put(s, sample_from_urn(r, urn)); return s; });
    add("sample_pair_from_urn", true, [](rng_t & r) { Str s; auto p = sample_pair_from_urn(r, urn); put(s, p.first); put(s, p.second); return s; });
    static const VectorFloat probs = vf({.125f, .5f, 0.f, .25f, .125f}), likes = vf({3.f, .5f, 0.f, 1.f}), scores = vf({-1.f, -3.f, -INFINITY, 0.f});
    add("sample_discrete", true, [](rng_t & r) { Str s; put(s, sample_discrete(r, 5, probs.data())); return s; });
    add("sample_from_likelihoods", true, [](rng_t & r) { Str s; put(s, sample_from_likelihoods(r, likes)); return s; });
    add("sample_from_likelihoods total", true, [](rng_t & r) { Str s; put(s, sample_from_likelihoods(r, likes, 4.5f)); return s; });
    add("sample_from_probs", true, [](rng_t & r) { Str s; put(s, sample_from_probs(r, probs)); return s; });
    add("sample_from_scores", true, [](rng_t & r) { Str s; put(s, sample_from_scores(r, scores)); return s; });
    add("sample_from_scores_overwrite", true, [](rng_t & r) { Str s; VectorFloat c(scores); put(s, sample_from_scores_overwrite(r, c)); put_all(s, c); return s; });
    add("sample_prob_from_scores_overwrite", true, [](rng_t & r) { Str s; VectorFloat c(scores); auto p = sample_prob_from_scores_overwrite(r, c); put(s, p.first); put(s, p.second); return s; });
    add("score_from_scores_overwrite", true, [](rng_t & r) { Str s; VectorFloat c(scores); put(s, score_from_scores_overwrite(r, 1, c)); return s; });
    typedef Clustering<int32_t> C;
    for (auto & p : vector<std::pair<float, float>>{{1.f, 0.f}, {.3f, .6f}}) {
        C::PitmanYor py; py.alpha = p.first; py.d = p.second;
        add(MC_S("PitmanYor(" << p.first << "," << p.second << ").sample_assignments"), true, [py](rng_t & r) { Str s; put_all(s, py.sample_assignments(12, r)); put_all(s, py.sample_assignments(3, r)); return s; });
    }
    for (int n : {12, 50}) {
        C::LowEntropy le; le.dataset_size = n;
        add(MC_S("LowEntropy(" << n << ").sample_assignments"), true, [le](rng_t & r) { Str s; put_all(s, le.sample_assignments(12, r)); put_all(s, le.sample_assignments(3, r)); return s; });
    }
    add("log_sum_exp", false, [](rng_t &) { Str s; VectorFloat c(scores); put(s, log_sum_exp(c)); scores_to_probs(c); put_all(s, c); return s; });
}
// the same samplers at arguments a special case could take over
#define EDGE(call) edge(#call, [](rng_t & r) { Str s; for (int i = 0; i < 3; ++i) put(s, call); return s; })
static void edge_ops() {
    EDGE(sample_bernoulli(r, .5f)); EDGE(sample_bernoulli(r, 0.f)); EDGE(sample_bernoulli(r, 1.f)); EDGE(sample_bernoulli(r, 1e-6f));
    EDGE(sample_int(r, 3, 3)); EDGE(sample_int(r, 0, 1)); EDGE(sample_int(r, 0, 255)); EDGE(sample_int(r, 0, 999));
    EDGE(sample_normal(r, 0.f, 1.f)); EDGE(sample_normal(r, 0.f, 1e-12f)); EDGE(sample_normal(r, 1e6f, 1e6f));
    EDGE(sample_chisq(r, 1.f)); EDGE(sample_chisq(r, 2.f)); EDGE(sample_chisq(r, 500.f));
    EDGE(sample_poisson(r, 1e-3f)); EDGE(sample_poisson(r, 1.f)); EDGE(sample_poisson(r, 11.9f)); EDGE(sample_poisson(r, 12.f)); EDGE(sample_poisson(r, 5000.f)); EDGE(sample_poisson(r, 1e6f));
    EDGE(sample_negative_binomial(r, .5f, 1)); EDGE(sample_negative_binomial(r, .9f, 40)); EDGE(sample_negative_binomial(r, .01f, 200));
    EDGE(sample_gamma(r, 1.f)); EDGE(sample_gamma(r, 1e-3f)); EDGE(sample_gamma(r, .5f)); EDGE(sample_gamma(r, 1000.f)); EDGE(sample_gamma(r, 1.f, 1e-6f));
    EDGE(sample_beta(r, 1.f, 1.f)); EDGE(sample_beta(r, .5f, .5f)); EDGE(sample_beta(r, 300.f, 2.f)); EDGE(sample_beta(r, 1e-3f, 5.f));
    EDGE(sample_beta_safe(r, 1e-6f, 1.f, 1e-3f)); EDGE(sample_beta_safe(r, 1.f, 1e-6f, 1e-3f));
    for (int n : {1, 2, 64}) edge(MC_S("sample_dirichlet " << n), [n](rng_t & r) { Str s; vector<float> a(n, .7f), p(n); sample_dirichlet(r, n, a.data(), p.data()); put_all(s, p); return s; });
    for (int n : {1, 2, 8, 33}) edge(MC_S("urn and scores of " << n), [n](rng_t & r) {
        Str s;
        vector<int> urn;
        for (int i = 0; i < n; ++i) urn.push_back(i);
        put(s, sample_from_urn(r, urn));
        if (n > 1) { auto p = sample_pair_from_urn(r, urn); put(s, p.first); put(s, p.second); }
        vector<float> v(n, 1.f / n);
        put(s, sample_from_likelihoods(r, v)); put(s, sample_from_probs(r, v)); put(s, sample_from_scores(r, v)); put(s, sample_discrete(r, n, v.data()));
        return s; });
}
#undef EDGE
template<class M> struct Fixture {
    typename M::Shared s;
    vector<typename M::Value> v;
    typename M::Group empty, data;
    typename M::Sampler sampler;
    Fixture() : s(Tr<M>::shareds()[0]) {
        for (auto x : Tr<M>::values(s)) v.push_back(x);
        Bag n(v.size(), 0);
        empty = fresh<M>(s, n);
        for (auto & c : n) c = 2;
        n[0] = 5;
        data = fresh<M>(s, n);
        rng_t r(77);
        sampler.init(s, data, r);
    }
};
template<class M, class Mix> Str mixture_run(const Fixture<M> & f, rng_t & r, bool update) {
    Mix m;
    Str s;
    m.groups().resize(2);
    for (auto & g : m.groups()) g.init(f.s, r);
    m.init(f.s, r);
    typename M::Value x = f.v[0], y = f.v[1];
    m.add_value(f.s, 0, x, r);
    m.add_group(f.s, r);
    m.add_value(f.s, 1, y, r);
    m.add_value(f.s, 1, x, r);
    if (update) { m.remove_value(f.s, 1, x, r); m.remove_group(f.s, 2); m.add_group(f.s, r); }
    VectorFloat sc(m.groups().size(), 0.f);
    for (auto v : f.v) { typename M::Value w = v; m.score_value(f.s, w, sc, r); put(s, m.score_value_group(f.s, 1, w, r)); }
    put_all(s, sc);
    put(s, m.score_data(f.s, r));
    vector<typename M::Shared> ss(3, f.s);
    VectorFloat out(3);
    m.score_data_grid(ss, out, r);
    put_all(s, out);
    return s;
}
template<class M, class Yes> void mixture_ops(const std::shared_ptr<Fixture<M>> & f, Yes) {
    add(MC_S(Tr<M>::name() << " fast mixture"), false, [=](rng_t & r) { return mixture_run<M, typename M::FastMixture>(*f, r, true); });
    add(MC_S(Tr<M>::name() << " small mixture"), false, [=](rng_t & r) { return mixture_run<M, typename M::SmallMixture>(*f, r, true); });
}
template<class M> void mixture_ops(const std::shared_ptr<Fixture<M>> & f, std::false_type) {}
template<class M> void model_ops(const Str & tag = "") {
    auto f = std::make_shared<Fixture<M>>();
    const Str n = MC_S(Tr<M>::name() << tag);
    add(n + " sample_value of an empty group", true, [=](rng_t & r) { Str s; put_value(s, f->empty.sample_value(f->s, r)); return s; });
    add(n + " sample_value", true, [=](rng_t & r) { Str s; put_value(s, f->data.sample_value(f->s, r)); return s; });
    add(n + " Sampler.init, eval twice", true, [=](rng_t & r) { Str s; typename M::Sampler a; a.init(f->s, f->data, r); put_value(s, a.eval(f->s, r)); put_value(s, a.eval(f->s, r)); return s; });
    add(n + " eval of one Sampler", true, [=](rng_t & r) { Str s; put_value(s, f->sampler.eval(f->s, r)); return s; });
    add(n + " score_value, score_data", false, [=](rng_t & r) { Str s; for (auto v : f->v) { typename M::Value w = v; put(s, f->data.score_value(f->s, w, r)); } put(s, f->data.score_data(f->s, r)); return s; });
    add(n + " Scorer", false, [=](rng_t & r) { Str s; typename M::Scorer c; c.init(f->s, f->data, r); for (auto v : f->v) { typename M::Value w = v; put(s, c.eval(f->s, w, r)); } return s; });
    add(n + " group updates", false, [=](rng_t & r) {
        Str s; typename M::Group g = f->data, e; e.init(f->s, r);
        typename M::Value w = f->v[0], y = f->v[1];
        e.add_value(f->s, w, r); g.add_value(f->s, y, r); g.add_repeated_value(f->s, w, 3, r); g.remove_value(f->s, y, r); g.merge(f->s, e, r);
        put(s, Tr<M>::raw(g));
        return s; });
    add(n + " shared updates of a known value", false, [=](rng_t & r) { Str s; typename M::Shared h = f->s; typename M::Value w = f->v[0]; h.add_value(w, r); h.remove_value(w, r); put(s, f->data.score_value(h, w, r)); return s; });
    mixture_ops<M>(f, std::integral_constant<bool, Tr<M>::has_mixture != 0>());
}
static void dpd_ops() {
    auto f = std::make_shared<Fixture<DirichletProcessDiscrete>>();
    add("dpd Shared.add_value of a new value", true, [=](rng_t & r) { Str s; auto h = f->s; h.add_value(777, r); put(s, h.beta0); put(s, h.betas.get(777)); return s; });
    add("dpd Shared.realize", true, [=](rng_t & r) { Str s; auto h = f->s; h.gamma = .4f; h.realize(r); put(s, h.betas.size()); std::map<uint32_t, float> m; for (auto & b : h.betas) m[b.first] = b.second; for (auto & b : m) put(s, b.second); return s; });
}
static void dirty_stack(int c) { volatile char b[16384]; for (size_t i = 0; i < sizeof b; ++i) b[i] = c; }
static vector<rng_t> seeds() {
    vector<rng_t> v{rng_t(), rng_with_next(1), rng_with_next(RNG_MOD - 1), rng_with_next(1234567890)};
    if (thorough()) for (int i = 0; i < 8; ++i) v.push_back(rng_with_next(lattice(i, 8) % (RNG_MOD - 2) + 1));
    return v;
}
struct Result { Str out; rng_t after; bool operator==(const Result & o) const { return out == o.out && after == o.after; } };
static Result call(const Op & op, rng_t & r, int fill) {
    static const rng_t initial;
    mallopt(M_PERTURB, fill);
    dirty_stack(fill);
    transition();
    rng_t before = r;
    const bool own = &r != &global_rng;
    rng_t g = global_rng;
    Result x;
    x.out = op.run(r);
    x.after = r;
    if (own && !(global_rng == g)) { violation("global-generator", op.name + " advances the library's global generator although it was given another"); global_rng = g; }
    if (!op.samples && !(r == before)) violation("quiet", op.name + " only scores or updates, and advances the generator");
    return x;
}
// what the call gives as the very first in a process of its own
static Result virgin(const Op & op, const rng_t & start) {
    int p[2];
    if (pipe(p)) abort();
    pid_t c = fork();
    if (!c) {
        signal(SIGALRM, SIG_DFL); alarm(60);
        rng_t r = start;
        Str s = op.run(r), t = state_of(r);
        uint32_t n = s.size();
        Str all; put(all, n); all += s; all += t;
        size_t done = 0;
        while (done < all.size()) { ssize_t w = write(p[1], all.data() + done, all.size() - done); if (w <= 0) _exit(9); done += w; }
        _exit(0);
    }
    close(p[1]);
    Str all; char b[4096]; ssize_t k;
    while ((k = read(p[0], b, sizeof b)) > 0) all.append(b, k);
    close(p[0]);
    int status; waitpid(c, &status, 0);
    Result x;
    if (status || all.size() < 4) { violation("crash", MC_S(op.name << " ends its process with status " << status)); return x; }
    uint32_t n; memcpy(&n, all.data(), 4);
    x.out = all.substr(4, n);
    std::istringstream(all.substr(4 + n)) >> x.after;
    return x;
}
static Str hex(const Str & s) { Str r; char b[3]; for (unsigned char c : s.substr(0, 24)) { snprintf(b, 3, "%02x", c); r += b; } return r; }
static vector<vector<Result>> expected;
static void prepare() {
    basic_ops();
    edge_ops();
    model_ops<BetaBernoulli>(); model_ops<BetaNegativeBinomial>(); model_ops<GammaPoisson>(); model_ops<NormalInverseChiSq>();
    model_ops<DirichletDiscrete<31>>(); model_ops<DirichletDiscrete<256>>(); model_ops<DirichletProcessDiscrete>();
    model_ops<NormalInverseWishart<2>>(); model_ops<NormalInverseWishart<-1>>();
    dpd_ops();
    // one operation per process first, then nothing but the fixtures has run here
    for (auto & op : OPS) {
        vector<Result> v;
        for (auto & s : seeds()) { v.push_back(virgin(op, s)); state(); }
        expected.push_back(v);
    }
}
static void compare(const Op & op, const Result & got, const Result & want, const Str & history) {
    eval();
    if (got == want) return;
    violation(op.samples ? "history" : "quiet-history", MC_S(op.name << " from the same generator state " << (got.out == want.out ? "leaves another state" : "returns another result") << " " << history << ": " << hex(got.out) << " instead of " << hex(want.out)));
}
static void pairs(int part, int nparts) {
    prepare();
    auto S = seeds();
    for (size_t a = part; a < OPS.size(); a += nparts) for (size_t b = 0; b < OPS.size(); ++b) for (size_t i = 0; i < S.size(); ++i) {
        const size_t j = (i + 1) % S.size();
        const Op & A = OPS[a], & B = OPS[b];
        // own generators, A again afterwards
        rng_t r = S[i], q = S[j], r2 = S[i];
        compare(A, call(A, r, 0x55), expected[a][i], "in a process that ran other operations");
        compare(B, call(B, q, 0xaa), expected[b][j], "after " + A.name + " on another generator");
        compare(A, call(A, r2, 0xcc), expected[a][i], "after itself and " + B.name + " on other generators");
        // one generator: B continues where A stopped, twice, the other generator used in between
        rng_t t = S[i], u = S[j];
        call(A, t, 0x11);
        rng_t copy = t;
        Result first = call(B, t, 0x22);
        call(A, u, 0x33);
        compare(B, call(B, copy, 0x44), first, "after " + A.name + " and itself");
        // the library's own generator is one like any other
        if (b == a) { global_rng = S[i]; compare(A, call(A, global_rng, 0x66), expected[a][i], "on global_rng"); global_rng = rng_t(); }
        trace_done();
    }
    for (size_t a = part; a < OPS.size(); a += nparts) for (size_t i = 0; i < S.size(); ++i) {
        Result x; rng_t r = S[i];
        std::thread th([&] { x.out = OPS[a].run(r); x.after = r; });
        th.join();
        compare(OPS[a], x, expected[a][i], "in a new thread");
    }
    if (part == 0) sample(MC_S(OPS.size() << " operations, " << S.size() << " generator states"));
}
static void triples(int part, int nparts) {
    prepare();
    auto S = seeds();
    vector<size_t> ids;
    for (size_t i = 0; i < OPS.size(); ++i) if (OPS[i].samples && !OPS[i].edge) ids.push_back(i);
    const size_t seeds_used = thorough() ? S.size() : 1;
    for (size_t a = part; a < ids.size(); a += nparts) for (size_t b : ids) for (size_t c : ids) for (size_t i = 0; i < seeds_used; ++i) {
        rng_t r = S[i], q = S[(i + 1) % S.size()], p = S[(i + 2) % S.size()];
        call(OPS[ids[a]], r, 0x77);
        call(OPS[b], thorough() ? r : q, 0x88);
        compare(OPS[c], call(OPS[c], p, 0x99), expected[c][(i + 2) % S.size()], "after " + OPS[ids[a]].name + " and " + OPS[b].name);
        trace_done();
    }
}
// scoring that consumes as much as the sampler it matches
static void synchronized_entropy() {
    for (auto & s : seeds()) for (int n : {1, 2, 3, 8, 9, 40}) for (int k = 0; k < n; ++k) {
        VectorFloat v(n);
        for (int i = 0; i < n; ++i) v[i] = -.25f * ((i * 7) % 11);
        rng_t a = s, b = s, c = s, d = s;
        VectorFloat w(v), x(v), y(v);
        sample_from_scores_overwrite(a, w);
        score_from_scores_overwrite(b, k, x);
        sample_prob_from_scores_overwrite(c, y);
        sample_from_scores(d, v);
        transition(4); eval(); state(); trace_done();
        if (!(a == b) || !(a == c) || !(a == d)) violation("entropy", MC_S("samplers and scorer of " << n << " scores leave different generator states"));
    }
}
int main(int argc, char ** argv) {
    if (!rng_as_expected()) { fprintf(stderr, "rng_t is not the generator this check enumerates\n"); return 2; }
    Jobs jobs;
    for (int i = 0; i < 4; ++i) jobs.push_back({MC_S("pairs/" << i), [=] { pairs(i, 4); }});
    for (int i = 0; i < 8; ++i) jobs.push_back({MC_S("triples/" << i), [=] { triples(i, 8); }});
    jobs.push_back({"entropy", synchronized_entropy});
    return main_(argc, argv, jobs);
}
