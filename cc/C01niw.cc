#include "models_niw.hpp"
#include "C01_core.hpp"
int main(int argc, char ** argv) {
    Jobs jobs;
    for (int si = 0; si < 3; ++si) {
        jobs.push_back({MC_S("niw/" << si), [=] { job<NormalInverseWishart<-1>>(si); }});
        if (si != 1) jobs.push_back({MC_S("niw2/" << si), [=] { job<NormalInverseWishart<2>>(si); }});
    }
    jobs.push_back({"niw3/1", [=] { job<NormalInverseWishart<3>>(1); }});
    return main_(argc, argv, jobs);
}
