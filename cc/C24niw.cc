#include "models_niw.hpp"
namespace Eigen_ = Eigen;
#include "C24_core.hpp"
int main(int argc, char ** argv) {
    Jobs jobs;
    add_model<NormalInverseWishart<-1>>(jobs, thorough() ? 4 : 3, thorough() ? 2000 : 300);
    return main24(argc, argv, jobs);
}
