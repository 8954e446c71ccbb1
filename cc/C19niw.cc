#include "models_niw.hpp"
namespace Eigen_ = Eigen;
#include "C19_core.hpp"
using namespace mc;
int main(int argc, char ** argv) {
    Jobs jobs;
    add_scorings<NormalInverseWishart<-1>>(jobs, false, thorough() ? 3 : 1);
    return main_(argc, argv, jobs);
}
