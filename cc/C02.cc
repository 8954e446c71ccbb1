#include "C02_core.hpp"
int main(int argc, char ** argv) {
    Jobs jobs;
    for (int p = 0; p < 2; ++p) {
#if IN_PART(0)
        jobs.push_back({MC_S("bb/" << p), [=] { chain_job<BetaBernoulli>(p, 2); }});
        jobs.push_back({MC_S("gp/" << p), [=] { chain_job<GammaPoisson>(p, 2); }});
        jobs.push_back({MC_S("bnb/" << p), [=] { chain_job<BetaNegativeBinomial>(p, 2); }});
        jobs.push_back({MC_S("nich/" << p), [=] { chain_job<NormalInverseChiSq>(p, 2); }});
#endif
#if IN_PART(1)
        jobs.push_back({MC_S("dd31/" << p), [=] { chain_job<DirichletDiscrete<31>>(p, 2); }});
        jobs.push_back({MC_S("dd256/" << p), [=] { chain_job<DirichletDiscrete<256>>(p, 2); }});
        jobs.push_back({MC_S("dpd/" << p), [=] { chain_job<DirichletProcessDiscrete>(p, 2); }});
#endif
    }
    return main_(argc, argv, jobs);
}
