namespace Eigen_ { template<class F, int R, int C> struct Matrix; }
#include "C19_core.hpp"
#include <distributions/special.hpp>
#include <distributions/random.hpp>
using namespace mc;
#if IN_PART(0)
template<class P> static void clustering(const P & p) {
    typedef typename P::Mixture Mix;
    auto t = new Together; auto a = new Mix, b = new Mix; auto d = new MixtureDriver<P, int>;
    a->counts() = {3, 0, 1}; a->init(p); b->counts() = {0, 2, 0, 5, 1, 1, 9}; b->init(p); d->counts() = {1, 0, 4}; d->init(p);
    auto q = new P(p);
    auto one = [=](const std::string & name, const Mix * m) {
        t->add(name + ".score_value", [=] { VectorFloat f(m->counts().size()); m->score_value(*q, f); return vector<float>(f.begin(), f.end()); });
        t->add(name + ".score_data", [=] { return vector<float>{m->score_data(*q)}; });
        t->add(name + ".counts", [=] { vector<float> o(m->counts().begin(), m->counts().end()); o.push_back(m->sample_size()); for (auto i : m->empty_groupids()) o.push_back(i); return o; });
    };
    one("A", a); one("B", b);
    t->add("driver.score_value", [=] { VectorFloat f(3); d->score_value(*q, f); return vector<float>(f.begin(), f.end()); });
    t->add("prior.score_counts", [=] { return vector<float>{q->score_counts({1, 2, 3})}; });
    t->add("prior.score_add_value", [=] { return vector<float>{q->score_add_value(2, 3, 7, 1), q->score_add_value(0, 3, 7, 2), q->score_remove_value(2, 3, 7, 1)}; });
    t->add("prior.sample_assignments", [=] { rng_t r(3); vector<float> o; for (int x : q->sample_assignments(9, r)) o.push_back(x); return o; });
    t->pairs(thorough() ? 300 : 25, thorough() ? 5000 : 200);
}
static void job_functions() {
    auto t = new Together;
    t->add("fast_log", [] { return vector<float>{fast_log(.3f), fast_log(77)}; });
    t->add("fast_exp", [] { return vector<float>{fast_exp(.3f), fast_exp(-7)}; });
    t->add("fast_lgamma", [] { return vector<float>{fast_lgamma(.3f), fast_lgamma(777), fast_lgamma_nu(3.5f), fast_lgamma_nu(9000)}; });
    t->add("fast_log_factorial", [] { return vector<float>{fast_log_factorial(3), fast_log_factorial(777)}; });
    t->add("sums", [] { VectorFloat f; for (float x : {1.f, 2.f, 3.5f}) f.push_back(x); return vector<float>{(float)log_sum_exp(f), fast_log_sum_exp(2, 3)}; });
    t->add("discrete samplers", [] { rng_t r(4); VectorFloat f; for (float x : {.1f, .2f, .7f}) f.push_back(x); vector<float> o; o.push_back(sample_from_likelihoods(r, f)); o.push_back(sample_from_scores(r, f)); o.push_back(sample_int(r, 0, 99)); return o; });
    t->add("continuous samplers", [] { rng_t r(4); return vector<float>{sample_normal(r, 1, 2), sample_gamma(r, 3, 2), sample_beta(r, 1, 2), (float)sample_poisson(r, 4)}; });
    t->add("dirichlet", [] { rng_t r(4); float a[3] = {1, 2, .1f}, q[3]; sample_dirichlet(r, 3, a, q); return vector<float>(q, q + 3); });
    t->pairs(thorough() ? 300 : 25, thorough() ? 5000 : 200);
}
#endif
int main(int argc, char ** argv) {
    Jobs jobs;
    const int n = thorough() ? 3 : 1;
#if IN_PART(0)
    { PY p; p.alpha = 1.5f; p.d = .2f; jobs.push_back({"py", [=] { clustering(p); }}); }
    { LE p; p.dataset_size = 50; jobs.push_back({"le", [=] { clustering(p); }}); }
    jobs.push_back({"functions", job_functions});
    add_scorings<BetaBernoulli>(jobs, true, n);
#endif
#if IN_PART(1)
    add_scorings<BetaNegativeBinomial>(jobs, true, n); add_scorings<GammaPoisson>(jobs, true, n);
#endif
#if IN_PART(2)
    add_scorings<DirichletDiscrete<16>>(jobs, false, n); add_scorings<DirichletProcessDiscrete>(jobs, true, n);
#endif
#if IN_PART(3)
    add_scorings<NormalInverseChiSq>(jobs, true, n);
#endif
    return main_(argc, argv, jobs);
}
