// C07: clustering mixture scores equal the prior's own assignment scores.
#include "clustering_core.hpp"
using namespace mc;
inline double definition(const PY & m, int s, int n, int t, int e) { return py_add(m, s, n, t, e); }
inline double definition(const LE & m, int s, int n, int t, int e) { return le_add(m, s, n, t, e); }
inline bool sums_to_one(const PY &) { return true; }
inline bool sums_to_one(const LE &) { return false; }

template<class Mix, class Model> struct Scores {
    void operator()(const Mix & m, const Reference & r, const Model & model) {
        if (m.counts() != r.n) return;   // C06's business
        eval();
        const int total = r.total(), empties = r.empties(), nonempty = r.n.size() - empties;
        VectorFloat v(r.n.size());
        for (auto & x : v) x = 1e30f;
        m.score_value(model, v);
        double sum = 0;
        for (size_t g = 0; g < r.n.size(); ++g) {
            double want = definition(model, r.n[g], nonempty, total, empties);
            // the low-entropy score multiplies a tabulated logarithm by sizes up to 10000
            double tol = 2.5e-4 + 7e-5 * (sums_to_one(model) || r.n[g] > 10000 ? 0 : r.n[g]);
            float own = model.score_add_value(r.n[g], nonempty, total, empties);
            if (!close(v[g], want, tol) || !close(v[g], own, tol))
                violation("score_value", MC_S("group " << g << " of sizes " << vss(r.n) << " scores " << v[g] << ", the prior's own score is " << own << ", its definition " << want));
            sum += std::exp((double)v[g]);
            if (r.n[g]) {   // the removal score undoes the addition
                float rem = model.score_remove_value(r.n[g], nonempty, total, empties);
                int k = r.n[g] == 1;
                float add = model.score_add_value(r.n[g] - 1, nonempty - k, total - 1, empties);
                if (!close(rem, -add, 1e-5)) violation("score_remove_value", MC_S("removal from group " << g << " of " << vss(r.n) << " scores " << rem << ", adding it back " << add));
            }
        }
        if (sums_to_one(model) && !close(sum, 1, 3e-4)) violation("total", MC_S("assignment probabilities for sizes " << vss(r.n) << " total " << sum));
        Sizes packed;
        for (int n : r.n) if (n) packed.push_back(n);
        float data = m.score_data(model), want = model.score_counts(packed);
        if (!close(data, want, 1e-4, 1e-5)) violation("score_data", MC_S("score_data " << data << " for sizes " << vss(r.n) << ", score_counts of the nonempty sizes " << want));
        std::sort(packed.begin(), packed.end());
        float sorted = model.score_counts(packed);
        if (!close(data, sorted, 3e-3 + 1e-6 * total * std::log(total + 2.), 1e-4)) violation("score_data_order", MC_S("score_data " << data << " for sizes " << vss(r.n) << ", in sorted order " << sorted));
    }
};
template<class Model, class Mix> void job(Model model, int max_total, vector<int> ks, std::string what, vector<Model> others = {}) {
    Context c(what);
    bool th = thorough();
    ClusterExplorer<Model, Mix, Scores<Mix, Model>> e;
    e.model = model; e.max_total = max_total; e.max_groups = 6; e.ks = ks;
    e.others = others;
    if (ks.back() > 10000) {
        e.starts = {{0}, {20000, 0, 1}, {10001, 10000, 0}, {9999, 1, 0, 70000}};
        e.max_groups = 5;
        e.run(th ? 4 : 3, 6, th ? 20000 : 1500);
        return;
    }
    if (others.size()) e.max_groups = 5;
    e.run(others.size() ? (th ? 5 : 4) : ks.size() > 1 ? (th ? 5 : 4) : (th ? 7 : 5), 40, th ? 100000 : 8000);
    sample(what);
}
template<class Model, class Mix> void lives(Model model, std::string what) {
    Context c(what);
    ClusterExplorer<Model, Mix, Scores<Mix, Model>> e;
    e.model = model; e.max_total = 100000; e.max_groups = 100000; e.ks = {1, 2};
    e.lives(thorough() ? 500 : 150, thorough() ? 2000 : 400);
}
int main(int argc, char ** argv) {
    Jobs jobs;
    for (float alpha : {.01f, .5f, 1.f, 10.f, 1000.f}) for (float d : {0.f, .1f, .5f, .95f}) {
        PY m; m.alpha = alpha; m.d = d;
        jobs.push_back({MC_S("py/" << alpha << "/" << d), [=] {
            job<PY, PY::Mixture>(m, 8, {1}, MC_S("PitmanYor(" << alpha << "," << d << ")::Mixture"));
            job<PY, PY::Mixture>(m, 50, {1, 4, 20}, MC_S("PitmanYor(" << alpha << "," << d << ")::Mixture, multiplicities"));
            PY o1 = m, o2 = m; o1.alpha = alpha * 3; o2.d = d ? d / 2 : .3f;
            job<PY, PY::Mixture>(m, 5, {1}, MC_S("PitmanYor(" << alpha << "," << d << ")::Mixture, re-initialised"), {o1, o2});
            job<PY, PY::Mixture>(m, 200000, {1, 12000}, MC_S("PitmanYor(" << alpha << "," << d << ")::Mixture, large groups"));
            if (alpha == 1.f) job<PY, MixtureDriver<PY, int>>(m, 8, {1}, MC_S("MixtureDriver<PitmanYor(" << alpha << "," << d << ")>"));
        }});
    }
    for (float alpha : {.05f, 1.f, 80.f}) for (float d : {0.f, .3f}) {
        PY m; m.alpha = alpha; m.d = d;
        jobs.push_back({MC_S("py-many/" << alpha << "/" << d), [=] { lives<PY, PY::Mixture>(m, MC_S("PitmanYor(" << alpha << "," << d << ")::Mixture")); }});
    }
    { PY m; m.alpha = 1; m.d = .3f; jobs.push_back({"py-driver-many", [=] { lives<PY, MixtureDriver<PY, int>>(m, "MixtureDriver<PitmanYor(1,.3)>"); }}); }
    for (int n : {10000, 10000000}) { LE m; m.dataset_size = n; jobs.push_back({MC_S("le-many/" << n), [=] { lives<LE, LE::Mixture>(m, MC_S("LowEntropy(" << n << ")::Mixture")); }}); }
    for (int n : {2, 3, 7, 40, 1000, 1000000}) {
        LE m; m.dataset_size = n;
        jobs.push_back({MC_S("le/" << n), [=] {
            job<LE, LE::Mixture>(m, std::min(n - 1, 8), {1}, MC_S("LowEntropy(" << n << ")::Mixture"));
            LE o; o.dataset_size = n + 7;
            job<LE, LE::Mixture>(m, std::min(n - 1, 5), {1}, MC_S("LowEntropy(" << n << ")::Mixture, re-initialised"), {o});
            if (n > 300000) job<LE, LE::Mixture>(m, 200000, {1, 12000}, MC_S("LowEntropy(" << n << ")::Mixture, large groups"));
            if (n > 20) job<LE, LE::Mixture>(m, std::min(n - 1, 50), {1, 4, 20}, MC_S("LowEntropy(" << n << ")::Mixture, multiplicities"));
        }});
    }
    return main_(argc, argv, jobs);
}
