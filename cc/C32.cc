#include "C32_core.hpp"
int main(int argc, char ** argv) {
    Jobs jobs;
    const int t = thorough();
    for (int p = 0; p < 2; ++p) {
        jobs.push_back({MC_S("bb/" << p), [=] { stages_job<BetaBernoulli>(p, 2, 9 + 4 * t); }});
        jobs.push_back({MC_S("gp/" << p), [=] { stages_job<GammaPoisson>(p, 2, 4 + t); }});
        jobs.push_back({MC_S("bnb/" << p), [=] { stages_job<BetaNegativeBinomial>(p, 2, 3 + t); }});
        jobs.push_back({MC_S("nich/" << p), [=] { stages_job<NormalInverseChiSq>(p, 2, 3 + t); }});
        jobs.push_back({MC_S("dd31/" << p), [=] { stages_job<DirichletDiscrete<31>>(p, 2, 5 + t); }});
        jobs.push_back({MC_S("dd256/" << p), [=] { stages_job<DirichletDiscrete<256>>(p, 2, 3 + t); }});
        jobs.push_back({MC_S("dpd/" << p), [=] { stages_job<DirichletProcessDiscrete>(p, 2, 4 + t); }});
    }
    return main_(argc, argv, jobs);
}
