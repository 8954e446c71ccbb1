#include "models_niw.hpp"
#include "C03_core.hpp"
// multivariate student t in dimension 1..3: product tan substitution, midpoint rule
template<int D> void integrate(int si, int size) {
    typedef NormalInverseWishart<D> M;
    auto s = Tr<M>::shareds()[si];
    const int d = s.mu.size();
    rng_t rng;
    const int N = d == 1 ? 800 : d == 2 ? 220 : 70;
    for (auto & n : bags_up_to(4, size, d == 1)) {
        Context c(MC_S(Tr<M>::name() << " dimension " << d << " hyperparameters #" << si));
        auto g = fresh<M>(s, n);
        typename M::Scorer sc;
        sc.init(s, g, rng);
        state(); trace_done(); transition(bag_total(n));
        auto vals = Tr<M>::values(s);
        vector<double> mean(d), width(d);
        double N0 = bag_total(n), k = s.kappa + N0, nu = s.nu + N0 - d + 1;
        for (int a = 0; a < d; ++a) {
            double m = s.kappa * s.mu(a), ss = s.psi(a, a);
            for (size_t i = 0; i < n.size(); ++i) m += n[i] * (double)vals[i](a);
            mean[a] = m / k;
            for (size_t i = 0; i < n.size(); ++i) ss += n[i] * sqr(vals[i](a) - mean[a]);
            ss += s.kappa * sqr(s.mu(a) - mean[a]);
            width[a] = std::sqrt(ss * (k + 1) / (k * std::max(1.0, nu)));
        }
        double t = 0, h = M_PI / N;
        vector<int> ix(d, 0);
        typename M::Vector x; x.resize(d, Eigen::NoChange);
        for (bool more = true; more;) {
            double jac = 1;
            for (int a = 0; a < d; ++a) {
                double th = -M_PI / 2 + (ix[a] + .5) * h;
                x(a) = mean[a] + width[a] * std::tan(th);
                jac *= width[a] / sqr(std::cos(th)) * h;
            }
            t += std::exp((double)sc.eval(s, x, rng)) * jac;
            eval();
            more = false;
            for (int a = 0; a < d; ++a) { if (++ix[a] < N) { more = true; break; } ix[a] = 0; }
        }
        verdict("niw", t, d == 1 ? .02 : .05, n);
    }
}
int main(int argc, char ** argv) {
    bool th = true;
    (void)th;
    return main_(argc, argv, {
        {"niw-1d", [] { integrate<-1>(1, thorough() ? 6 : 4); }},
        {"niw2/0", [] { integrate<2>(0, thorough() ? 4 : 2); }},
        {"niw2/1", [] { integrate<2>(1, thorough() ? 4 : 2); }},
        {"niw2/2", [] { integrate<2>(2, thorough() ? 4 : 2); }},
        {"niw3/2", [] { integrate<3>(2, thorough() ? 3 : 1); }},
    });
}
