#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include "C15_core.hpp"
static rng_t RNG;
template<class M> void discrete(const char * model, const typename M::Shared & s, const Bag & n, double bias, const std::string & where);
template<> void discrete<BetaBernoulli>(const char * model, const BetaBernoulli::Shared & s, const Bag & n, double bias, const std::string & where) {
    auto g = fresh<BetaBernoulli>(s, n);
    Cells c;
    for (bool x : {false, true}) c.want[x] = std::exp((double)g.score_value(s, x, RNG));
    run<BetaBernoulli>(model, s, g, c, [](bool x) { return (long)x; }, bias, false, where);
}
template<int D> void discrete_dd(const typename DirichletDiscrete<D>::Shared & s, const Bag & n, const std::string & where, bool slow) {
    auto g = fresh<DirichletDiscrete<D>>(s, n);
    Cells c;
    for (int x = 0; x < s.dim; ++x) c.want[x] = std::exp((double)g.score_value(s, x, RNG));
    run<DirichletDiscrete<D>>("dd", s, g, c, [&](int x) { return x < 0 || x >= s.dim ? -1L : (long)x; }, 0, slow, where);
}
static void discrete_dpd(const DirichletProcessDiscrete::Shared & s, const Bag & n, const std::string & where) {
    typedef DirichletProcessDiscrete M;
    auto g = fresh<M>(s, n);
    Cells c;
    for (auto & b : s.betas) c.want[b.first] = std::exp((double)g.score_value(s, b.first, RNG));
    if (s.beta0 > 0) c.want[M::OTHER()] = std::exp((double)g.score_value(s, M::OTHER(), RNG));
    run<M>("dpd", s, g, c, [&](uint32_t x) { return s.betas.contains(x) || (x == M::OTHER() && s.beta0 > 0) ? (long)x : -1L; }, 0, false, where);
}
// the predictive by its formula: cuts the domain and gives the tail's probability
static double exact_pmf(const GammaPoisson::Shared & p, double x) { double a = p.alpha, b = p.inv_beta; return std::exp(lg(a + x) - lg(a) - lg(x + 1) + a * std::log(b / (b + 1)) - x * std::log(b + 1)); }
static double exact_pmf(const BetaNegativeBinomial::Shared & p, double x) { double a = p.alpha, b = p.beta, r = p.r; return std::exp(log_binom(r + x - 1, x) + lg(a + r) + lg(b + x) - lg(a + b + r + x) - lg(a) - lg(b) + lg(a + b)); }
static double size_of(const GammaPoisson::Shared & p) { return p.alpha * (1 + 2 / p.inv_beta); }
static double size_of(const BetaNegativeBinomial::Shared & p) { return p.alpha + 2 * p.beta; }
// counts: cells 0..last, then one for the rest
template<class M> void counts(const char * model, const typename M::Shared & s, const Bag & n, const std::string & where) {
    auto g = fresh<M>(s, n);
    typename M::Value x0 = 0;
    (void)x0;
    Cells c, full;
    double t = 0, tf = 0, te = 0;
    const auto post = s.plus_group(g);
    long last = 0;
    const long cut = 3000;
    vector<double> p, f;
    for (long x = 0; x < cut; ++x) {
        typename M::Value v = x;
        const double score = g.score_value(s, v, RNG);
        p.push_back(std::exp(score));
        f.push_back(std::exp(score + omitted<M>(s, v)));
        t += p.back(); tf += f.back(); te += exact_pmf(post, x);
        if (te > .998) break;
    }
    // values in cells of at least 2 permille, the tail in one
    vector<long> cell(p.size());
    long k = 0; double w = 0;
    for (size_t x = 0; x < p.size(); ++x) { cell[x] = k; c.want[k] += p[x]; full.want[k] += f[x]; w += f[x]; if (w > .002) { ++k; w = 0; } }
    last = k + 1;
    full.want[last] = std::max(0.0, 1 - te);
    auto cell_of = [&](uint32_t x) { return x < cell.size() ? cell[x] : x < 0x80000000u ? last : -1L; };
    const double bias = .003 + 1e-4 * size_of(post);
    if (!close(tf, te, bias)) violation(MC_S(model << "-reference"), MC_S("the scored probabilities of 0.." << p.size() - 1 << " total " << tf << ", not " << te << " " << where));
    if (std::fabs(t - tf) > 1e-6) {   // bnb with r > 1: scores leave out the binomial coefficient
        violation("bnb-binomial-coefficient", MC_S("sampled values follow the negative binomial, scores leave out its coefficient, " << where));
    }
    run<M>(model, s, g, full, cell_of, bias, false, where);
}
// counts in the thousands and hundreds of thousands: about fifty cells of the exact
// predictive, whose scores C02 covers
template<class M> void large_counts(const char * model, const typename M::Shared & s, uint32_t value, int copies) {
    const std::string where = MC_S("(" << model << ", data " << value << " x" << copies << ")");
    Context c(where);
    typename M::Group g;
    g.init(s, RNG);
    g.add_repeated_value(s, value, copies, RNG);
    const auto post = s.plus_group(g);
    Cells cells;
    vector<uint32_t> ends;
    double total = 0, w = 0;
    long k = 0;
    for (uint32_t x = 0; total < .995 && x < 40000000; ++x) {
        double p = exact_pmf(post, x);
        total += p; w += p; cells.want[k] += p;
        if (w > .02) { ends.push_back(x); ++k; w = 0; }
    }
    cells.want.erase(k);
    double sum = 0;
    for (auto & p : cells.want) sum += p.second;
    cells.want[k] = 1 - sum;
    run<M>((std::string(model) + "-large").c_str(), s, g, cells, [&](uint32_t x) { return x >= 0x80000000u ? -1L : (long)(std::lower_bound(ends.begin(), ends.end(), x) - ends.begin()); }, .01, false, where);
}
static void normal(const NormalInverseChiSq::Shared & s, const Bag & n, const std::string & where) {
    typedef NormalInverseChiSq M;
    auto g = fresh<M>(s, n);
    auto post = s.plus_group(g);
    double w = std::sqrt(post.sigmasq * (1 + 1 / post.kappa));
    // 40 cells equally spaced in theta, x = mean + w tan(theta)
    const int N = 40, Q = 60;
    double h = M_PI / N;
    Cells c;
    for (int i = 0; i < N; ++i) for (int j = 0; j < Q; ++j) {
        double th = -M_PI / 2 + (i + (j + .5) / Q) * h;
        float x = post.mu + w * std::tan(th);
        c.want[i] += std::exp((double)g.score_value(s, x, RNG)) * w / sqr(std::cos(th)) * h / Q;
    }
    run<M>("nich", s, g, c, [&](float x) {
        if (!finite(x)) return -1L;
        long i = (std::atan((x - post.mu) / w) + M_PI / 2) / h;
        return std::min<long>(N - 1, std::max<long>(0, i));
    }, .02, false, where);
}
// heavy-tailed beta negative binomials: every draw has to come to an end
static void heavy(float alpha) {
    BetaNegativeBinomial::Shared s; s.alpha = alpha; s.beta = 1; s.r = 1;
    auto g = fresh<BetaNegativeBinomial>(s, Bag(4, 0));
    vector<uint32_t> tiny, large;
    for (uint32_t i = 1; i < 400000 && tiny.size() < 3; ++i) {
        rng_t r(i), q(i);
        float p = sample_beta(q, alpha, 1.f);
        if (p < 1e-12f) tiny.push_back(i); else if (p < 1e-6f && p > 1e-7f && large.size() < 20) large.push_back(i);
    }
    for (int kind = 0; kind < 2; ++kind) for (uint32_t i : kind ? tiny : large) {
        state(); transition(); eval();
        pid_t child = fork();
        if (!child) { signal(SIGALRM, SIG_DFL); alarm(5); rng_t r(i); g.sample_value(s, r); _exit(0); }
        int status = 0;
        waitpid(child, &status, 0);
        if (status) violation(kind ? "bnb-tiny-beta" : "bnb-large-draw", MC_S("sampling with alpha = " << alpha << ", beta = 1, r = 1 from generator state " << i << " ends with status " << status << (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM ? " (still running after 5 s)" : "")));
        trace_done();
    }
}
template<class S> size_t pick(const vector<S> & all) { return thorough() ? 1 : std::max<size_t>(1, all.size() / 9); }
int main(int argc, char ** argv) {
    if (!rng_as_expected()) { fprintf(stderr, "rng_t is not the generator this check enumerates\n"); return 2; }
    Jobs jobs;
#define EACH(MODEL, TAG, CALL, PARTS) for (int part = 0; part < PARTS; ++part) jobs.push_back({MC_S(TAG << "/" << part), [=] { \
        typedef MODEL M; auto all = Grid<M>::shareds(); size_t k = 0, step = pick(all); \
        for (size_t i = 0; i < all.size(); i += step) { auto & s = all[i]; auto vals = Tr<M>::values(s); \
            for (auto & n : sample_bags(vals.size())) { if ((int)(k++ % PARTS) != part) continue; std::string where = MC_S("(" << TAG << " grid point " << i << ", data " << bag_s(n) << ")"); Context c(where); CALL; } } \
        sample(MC_S(TAG << ": " << k << " group states")); }});
    EACH(BetaBernoulli, "bb", discrete<BetaBernoulli>("bb", s, n, 0, where), 2)
    EACH(BetaNegativeBinomial, "bnb", counts<BetaNegativeBinomial>("bnb", s, n, where), 4)
    EACH(GammaPoisson, "gp", counts<GammaPoisson>("gp", s, n, where), 4)
    EACH(NormalInverseChiSq, "nich", normal(s, n, where), 4)
    EACH(DirichletProcessDiscrete, "dpd", discrete_dpd(s, n, where), 4)
    EACH(DirichletDiscrete<31>, "dd", (s.dim >= 3 || n == Bag(vals.size(), 0) ? discrete_dd<31>(s, n, where, false) : (void)0), 4)
    EACH(DirichletDiscrete<256>, "dd256", (s.dim == 256 ? discrete_dd<256>(s, n, where, true) : (void)0), 4)
    for (int i = 0; i < 4; ++i) jobs.push_back({MC_S("large/" << i), [=] {
        GammaPoisson::Shared gp; gp.alpha = 1; gp.inv_beta = 1;
        BetaNegativeBinomial::Shared bnb; bnb.alpha = 5; bnb.beta = 2; bnb.r = 1;
        static const uint32_t values[] = {60, 700, 9000, 200000};
        for (int copies : {1, 3, 40}) { large_counts<GammaPoisson>("gp", gp, values[i], copies); if (i < 3) large_counts<BetaNegativeBinomial>("bnb", bnb, values[i], copies); }
    }});
    for (float a : {.1f, .3f}) jobs.push_back({MC_S("bnbheavy/" << a), [=] { heavy(a); }});
    return main_(argc, argv, jobs);
}
