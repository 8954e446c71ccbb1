#include "models_niw.hpp"
namespace mc {
template<class S, class V> double err_bound(const S & s, const Bag & n, const V &, int) { return 6e-3 + 2e-4 * (s.nu + bag_total(n)); }
template<int D> Fields niw_hyper(const typename NormalInverseWishart<D>::Shared & s) {
    Fields f{{"kappa", s.kappa}, {"nu", s.nu}};
    for (int i = 0; i < s.mu.size(); ++i) { f[MC_S("mu" << i)] = s.mu(i); for (int j = 0; j < s.mu.size(); ++j) f[MC_S("psi" << i << "." << j)] = s.psi(i, j); }
    return f;
}
inline Fields hyper(const NormalInverseWishart<-1>::Shared & s) { return niw_hyper<-1>(s); }
inline Fields hyper(const NormalInverseWishart<2>::Shared & s) { return niw_hyper<2>(s); }
inline Fields hyper(const NormalInverseWishart<3>::Shared & s) { return niw_hyper<3>(s); }
}
#include "C32_core.hpp"
template<int D> void job() {
    auto all = Tr<NormalInverseWishart<D>>::shareds();
    for (size_t i = 0; i < all.size(); ++i) Stages<NormalInverseWishart<D>>().run(all[i], i, thorough() ? 4 : 3);
}
int main(int argc, char ** argv) {
    return main_(argc, argv, {{"niw", job<-1>}, {"niw2", job<2>}, {"niw3", job<3>}});
}
