#include "C03_core.hpp"
template<class M> void job(int p, int q, int t) { totals<M>(Grid<M>::shareds(), p, 4, thorough() ? t : q); }
int main(int argc, char ** argv) {
    Jobs jobs;
    for (int p = 0; p < 4; ++p) {
#if IN_PART(0)
        jobs.push_back({MC_S("nich/" << p), [=] { job<NormalInverseChiSq>(p, 6, 9); }});
        jobs.push_back({MC_S("gp/" << p), [=] { job<GammaPoisson>(p, 6, 9); }});
        jobs.push_back({MC_S("bnb/" << p), [=] { job<BetaNegativeBinomial>(p, 4, 6); }});
#endif
#if IN_PART(1)
        jobs.push_back({MC_S("dd31/" << p), [=] { job<DirichletDiscrete<31>>(p, 15, 25); }});
        jobs.push_back({MC_S("dd256/" << p), [=] { job<DirichletDiscrete<256>>(p, 6, 9); }});
        jobs.push_back({MC_S("dpd/" << p), [=] { job<DirichletProcessDiscrete>(p, 15, 25); }});
        if (p == 0) jobs.push_back({"bb", [=] { totals<BetaBernoulli>(Grid<BetaBernoulli>::shareds(), 0, 1, 40); }});
#endif
    }
    return main_(argc, argv, jobs);
}
