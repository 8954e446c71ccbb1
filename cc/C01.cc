#include "C01_core.hpp"
int main(int argc, char ** argv) {
    Jobs jobs;
    for (int si = 0; si < 3; ++si) {
#if IN_PART(0)
        if (si < 2) {
            jobs.push_back({MC_S("bb/" << si), [=] { job<BetaBernoulli>(si); }});
            jobs.push_back({MC_S("big/bb/" << si), [=] { big_job<BetaBernoulli>(si); }});
            jobs.push_back({MC_S("gp/" << si), [=] { job<GammaPoisson>(si); }});
            jobs.push_back({MC_S("big/gp/" << si), [=] { big_job<GammaPoisson>(si); }});
        }
#endif
#if IN_PART(1)
        if (si < 2) {
            jobs.push_back({MC_S("dd4/" << si), [=] { job<DirichletDiscrete<4>>(si); }});
            jobs.push_back({MC_S("big/dd4/" << si), [=] { big_job<DirichletDiscrete<4>>(si); }});
        }
        jobs.push_back({MC_S("bnb/" << si), [=] { job<BetaNegativeBinomial>(si); }});
        jobs.push_back({MC_S("big/bnb/" << si), [=] { big_job<BetaNegativeBinomial>(si); }});
#endif
#if IN_PART(2)
        jobs.push_back({MC_S("dpd/" << si), [=] { job<DirichletProcessDiscrete>(si); }});
        jobs.push_back({MC_S("big/dpd/" << si), [=] { big_job<DirichletProcessDiscrete>(si); }});
        jobs.push_back({MC_S("nich/" << si), [=] { job<NormalInverseChiSq>(si); }});
        jobs.push_back({MC_S("big/nich/" << si), [=] { big_job<NormalInverseChiSq>(si); }});
#endif
    }
#if IN_PART(1)
    jobs.push_back({"big/dd256/2", [=] { big_job<DirichletDiscrete<256>>(2); }});
    jobs.push_back({"dd256/2", [=] { job<DirichletDiscrete<256>>(2); }});
#endif
    return main_(argc, argv, jobs);
}
