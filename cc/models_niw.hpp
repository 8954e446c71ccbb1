// Normal-inverse-Wishart adaptor (kept apart: Eigen is slow to compile).
#pragma once
#include "models.hpp"
#include <distributions/models/niw.hpp>

namespace mc {
typedef vector<vector<double>> DMat;
inline double det(DMat a) {   // Gaussian elimination with pivoting
    double d = 1; int n = a.size();
    for (int i = 0; i < n; ++i) {
        int p = i;
        for (int r = i; r < n; ++r) if (std::fabs(a[r][i]) > std::fabs(a[p][i])) p = r;
        if (a[p][i] == 0) return 0;
        if (p != i) { std::swap(a[p], a[i]); d = -d; }
        d *= a[i][i];
        for (int r = i + 1; r < n; ++r) {
            double f = a[r][i] / a[i][i];
            for (int c = i; c < n; ++c) a[r][c] -= f * a[i][c];
        }
    }
    return d;
}
template<int D> struct Tr<NormalInverseWishart<D>> : TrBase {
    typedef NormalInverseWishart<D> M;
    typedef pb::NormalInverseWishart Msg;
    typedef typename M::Vector Vec;
    enum { discrete = 0, has_mixture = 0 };
    static double tol() { return 6e-3; }
    static const char * name() { return D == -1 ? "niw" : D == 2 ? "niw2" : "niw3"; }
    static int dimension(int i) { return D == -1 ? (i == 0 ? 3 : i == 1 ? 1 : 5) : D; }
    static vector<typename M::Shared> shareds() {
        vector<typename M::Shared> r;
        for (int k = 0; k < 3; ++k) {
            int d = dimension(k);
            typename M::Shared s;
            s.mu.resize(d, Eigen::NoChange); s.psi.resize(d, d);
            for (int i = 0; i < d; ++i) {
                s.mu(i) = k ? .5f * i - 1 : 0.f;
                for (int j = 0; j < d; ++j) s.psi(i, j) = i == j ? 1.f + k * .5f * i : (k == 2 ? .25f : 0.f);
            }
            s.kappa = k == 0 ? 1.f : k == 1 ? .25f : 4.f;
            s.nu = d + (k == 0 ? 1.f : k == 1 ? -.5f : 3.f);
            r.push_back(s);
        }
        return r;
    }
    static vector<Vec> values(const typename M::Shared & s) {
        int d = s.mu.size();
        vector<Vec> r;
        for (int k = 0; k < 4; ++k) {
            Vec v; v.resize(d, Eigen::NoChange);
            for (int i = 0; i < d; ++i)
                v(i) = k == 0 ? 0.f : k == 1 ? 1.f - .5f * i : k == 2 ? (i & 1 ? -2.f : .25f) : (float)(3 + i);
            r.push_back(v);
        }
        return r;
    }
    static double lmg(int d, double a) {
        double r = .25 * d * (d - 1) * std::log(M_PI);
        for (int i = 0; i < d; ++i) r += lg(a - .5 * i);
        return r;
    }
    static double ref(const typename M::Shared & s, const Bag & n, const vector<Vec> & v) {
        int d = s.mu.size();
        double N = 0;
        vector<double> mean(d, 0.0);
        for (size_t i = 0; i < n.size(); ++i) {
            N += n[i];
            for (int a = 0; a < d; ++a) mean[a] += (double)n[i] * v[i](a);
        }
        for (auto & m : mean) m = N ? m / N : 0;
        DMat psi(d, vector<double>(d)), post(psi);
        double k = s.kappa, nu = s.nu;
        for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) {
            psi[a][b] = s.psi(a, b);
            double x = psi[a][b];
            for (size_t i = 0; i < n.size(); ++i) x += n[i] * ((double)v[i](a) - mean[a]) * ((double)v[i](b) - mean[b]);
            if (N) x += k * N / (k + N) * (mean[a] - s.mu(a)) * (mean[b] - s.mu(b));
            post[a][b] = x;
        }
        return -.5 * N * d * std::log(M_PI) + lmg(d, .5 * (nu + N)) - lmg(d, .5 * nu)
             + .5 * nu * std::log(det(psi)) - .5 * (nu + N) * std::log(det(post))
             + .5 * d * (std::log(k) - std::log(k + N));
    }
    static std::string raw(const typename M::Group & g) {
        std::string r = MC_S(g.count);
        auto bits = [&](float x) { uint32_t b; x += 0.f; memcpy(&b, &x, 4); r += MC_S(',' << b); };
        for (int i = 0; i < g.sum_x.size(); ++i) bits(g.sum_x(i));
        for (int i = 0; i < g.sum_xxT.size(); ++i) bits(g.sum_xxT.data()[i]);
        return r;
    }
};
inline Fields fields(const pb::NormalInverseWishart::Group & m) {
    Fields f{{"count", (double)m.count()}, {"dim", (double)m.sum_x_size()}, {"dim2", (double)m.sum_xxt_size()}};
    for (int i = 0; i < m.sum_x_size(); ++i) f[MC_S("x" << i)] = m.sum_x(i);
    for (int i = 0; i < m.sum_xxt_size(); ++i) f[MC_S("xx" << i)] = m.sum_xxt(i);
    return f;
}
}  // namespace mc
