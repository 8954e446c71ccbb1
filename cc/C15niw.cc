#include "models_niw.hpp"
#include "C15_core.hpp"
// Marginals of the predictive along several directions are Student t: the cells'
// probabilities are integrated from the scores in one dimension, and from the
// definition in more (the scores themselves are C02's and C03's business); in two
// dimensions the scores are integrated over a grid of cells as well.
static double t_density(double z, double nu) { return std::exp(lg(.5 * nu + .5) - lg(.5 * nu) - .5 * std::log(nu * M_PI) - .5 * (nu + 1) * std::log1p(z * z / nu)); }
template<int D> void sample_niw(int si) {
    typedef NormalInverseWishart<D> M;
    auto s = Tr<M>::shareds()[si];
    const int d = s.mu.size();
    for (auto & n : sample_bags(4)) {
        std::string where = MC_S("(niw dimension " << d << " hyperparameters #" << si << ", data " << bag_s(n) << ")");
        Context ctx(where);
        auto g = fresh<M>(s, n);
        auto post = s.plus_group(g);
        double k = post.kappa, dof = post.nu - d + 1;
        rng_t rng;
        vector<vector<double>> dirs;
        for (int a = 0; a < d; ++a) { vector<double> v(d, 0.0); v[a] = 1; dirs.push_back(v); }
        if (d > 1) { dirs.push_back(vector<double>(d, 1.0)); vector<double> v(d, 1.0); v[0] = -1.5; dirs.push_back(v); }
        const int N = 24, Q = 200;
        double h = M_PI / N;
        vector<Cells> cells(dirs.size());
        vector<double> m(dirs.size()), w(dirs.size());
        for (size_t j = 0; j < dirs.size(); ++j) {
            double v = 0;
            for (int a = 0; a < d; ++a) { m[j] += dirs[j][a] * post.mu(a); for (int b = 0; b < d; ++b) v += dirs[j][a] * dirs[j][b] * post.psi(a, b); }
            w[j] = std::sqrt(v * (k + 1) / (k * dof));
            for (int i = 0; i < N; ++i) for (int q = 0; q < Q; ++q) {
                double th = -M_PI / 2 + (i + (q + .5) / Q) * h, z = std::tan(th), p = t_density(z, dof);
                if (d == 1) { typename M::Vector x; x.resize(1, Eigen::NoChange); x(0) = m[j] + w[j] * z; p = std::exp((double)g.score_value(s, x, rng)) * w[j]; }
                cells[j].want[i] += p / sqr(std::cos(th)) * h / Q;
            }
        }
        Cells grid;
        const int G = 6, R = 16;
        if (d == 2) for (int i = 0; i < G; ++i) for (int j = 0; j < G; ++j) for (int a = 0; a < R; ++a) for (int b = 0; b < R; ++b) {
            double hg = M_PI / G, t1 = -M_PI / 2 + (i + (a + .5) / R) * hg, t2 = -M_PI / 2 + (j + (b + .5) / R) * hg;
            typename M::Vector x; x.resize(2, Eigen::NoChange);
            x(0) = m[0] + w[0] * std::tan(t1); x(1) = m[1] + w[1] * std::tan(t2);
            grid.want[i * G + j] += std::exp((double)g.score_value(s, x, rng)) * w[0] * w[1] / sqr(std::cos(t1)) / sqr(std::cos(t2)) * hg * hg / R / R;
        }
        auto cell = [&](double z, int n) { long i = (std::atan(z) + M_PI / 2) / M_PI * n; return std::min<long>(n - 1, std::max<long>(0, i)); };
        double count = 0;
        bool bad = false;
        long failed = 0;
        typename M::Sampler sampler;
        orbit(orbit_step(true) * (thorough() ? 11 : 14), [&](rng_t r) {
            for (int twice = 0; twice < 2; ++twice) {
                typename M::Value x;
                transition();
                std::string error;
                try {
                    if (twice == 0) x = g.sample_value(s, r);
                    else { sampler.init(s, g, r); sampler.eval(s, r); x = sampler.eval(s, r); }
                } catch (std::exception & e) { error = e.what(); }
                bool ok = x.size() == d;
                for (int a = 0; a < d && ok; ++a) ok = finite(x(a));
                // less than two degrees of freedom in d > 1 dimensions: a known finding
                if ((!ok || error.size()) && d > 1 && dof < 2) { if (!failed++) violation("niw-below-two-dof", MC_S("sampling fails (" << error << ") " << where)); return; }
                if (error.size()) ok = false;
                if (ok && count < 2000) ok = finite(g.score_value(s, x, rng));
                if (!ok) { if (!bad) violation("niw-domain", "a sampled vector has the wrong size, is not finite or has no finite score " + error + where); bad = true; return; }
                for (size_t j = 0; j < dirs.size(); ++j) { double y = 0; for (int a = 0; a < d; ++a) y += dirs[j][a] * x(a); cells[j].got[cell((y - m[j]) / w[j], N)] += 1; }
                if (d == 2) grid.got[cell((x(0) - m[0]) / w[0], G) * G + cell((x(1) - m[1]) / w[1], G)] += 1;
                count += 1;
            }
        });
        for (size_t j = 0; j < dirs.size(); ++j) { cells[j].n = count; cells[j].compare("niw", .02, MC_S(where << " direction " << j)); }
        if (d == 2) { grid.n = count; grid.compare("niw-grid", .06, where); }
        extra_max(MC_S("failed_samples_dof_" << dof << "_dim_" << d), (double)failed);
        state();
    }
    sample(MC_S("niw dimension " << d));
}
int main(int argc, char ** argv) {
    if (!rng_as_expected()) { fprintf(stderr, "rng_t is not the generator this check enumerates\n"); return 2; }
    Jobs jobs;
    for (int i = 0; i < 3; ++i) {
        jobs.push_back({MC_S("niw/" << i), [=] { sample_niw<-1>(i); }});
        jobs.push_back({MC_S("niw2/" << i), [=] { sample_niw<2>(i); }});
        jobs.push_back({MC_S("niw3/" << i), [=] { sample_niw<3>(i); }});
    }
    return main_(argc, argv, jobs);
}
