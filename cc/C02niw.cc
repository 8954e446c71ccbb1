#include "models_niw.hpp"
namespace mc {
template<class S, class V> double err_bound(const S & s, const Bag & n, const V &, int) { return 6e-3 + 2e-4 * (s.nu + bag_total(n)); }
}
#include "C02_core.hpp"
template<int D> void job() {
    auto all = Tr<NormalInverseWishart<D>>::shareds();
    for (size_t i = 0; i < all.size(); ++i) Chain<NormalInverseWishart<D>>().run(all[i], i, thorough() ? 7 : 5, {3, 20});
}
int main(int argc, char ** argv) {
    return main_(argc, argv, {{"niw", job<-1>}, {"niw2", job<2>}, {"niw3", job<3>}});
}
