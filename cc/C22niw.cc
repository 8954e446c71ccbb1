#include "models_niw.hpp"
namespace Eigen_ = Eigen;
#include "C22_core.hpp"
template<int D> void shapes() {
    typedef NormalInverseWishart<D> M;
    RoundTrip<M> t;
    for (int mu = 0; mu <= 5; ++mu) for (int psi = 0; psi <= 26; ++psi) {
        Context c(MC_S("dimension parameter " << D << ", message with " << mu << " and " << psi << " entries"));
        state(); trace_done();
        pb::NormalInverseWishart::Shared s; pb::NormalInverseWishart::Group g;
        s.set_kappa(1); s.set_nu(mu + 1); g.set_count(1);
        for (int i = 0; i < mu; ++i) { s.add_mu(0); g.add_sum_x(0); }
        for (int i = 0; i < psi; ++i) { bool diag = mu && i / mu == i % mu; s.add_psi(diag); g.add_sum_xxt(diag); }
        bool good = mu > 0 && psi == mu * mu && (D < 0 || mu == D);
        for (auto & u : {M::Shared::EXAMPLE(), Tr<M>::shareds()[0]}) if (throws_on(u, wire(s)) == good) violation(good ? "niw-rejects-good-shape" : "niw-accepts-bad-shape", "loading the hyperparameters");
        if (throws_on(typename M::Group(), wire(g)) == good) violation(good ? "niw-rejects-good-shape" : "niw-accepts-bad-shape", "loading the group");
        eval(3);
    }
    for (float kappa : {0.f, -1.f}) { auto m = dumped<pb::NormalInverseWishart::Shared>(Tr<M>::shareds()[0]); m.set_kappa(kappa); t.reject("kappa is not positive", throws_on(Tr<M>::shareds()[0], m)); }
    { auto m = dumped<pb::NormalInverseWishart::Shared>(Tr<M>::shareds()[0]); m.set_nu(m.mu_size() - 1); t.reject("nu is too small", throws_on(Tr<M>::shareds()[0], m)); }
}
int main(int argc, char ** argv) {
    Jobs jobs;
    const int d = thorough() ? 4 : 2;
    for (int i = 0; i < 3; ++i) {
        jobs.push_back({MC_S("niw/" << i), [=] { RoundTrip<NormalInverseWishart<-1>> r; r.groups(i, d, 2); }});
        jobs.push_back({MC_S("niw3/" << i), [=] { RoundTrip<NormalInverseWishart<3>> r; r.groups(i, d, 2); }});
    }
    jobs.push_back({"shareds", [=] { { RoundTrip<NormalInverseWishart<-1>> r; r.shareds({}); } RoundTrip<NormalInverseWishart<3>> r; r.shareds({}); }});
    jobs.push_back({"shapes", [=] { shapes<-1>(); shapes<3>(); }});
    return main_(argc, argv, jobs);
}
