// C06: cluster bookkeeping under every add/remove history.
#include "clustering_core.hpp"
using namespace mc;
template<class Mix, class Model> struct Book {
    void operator()(const Mix & m, const Reference & r, const Model &) {
        eval();
        if (m.counts() != r.n) violation("counts", MC_S("sizes " << vss(m.counts()) << ", should be " << vss(r.n)));
        for (size_t g = 0; g < r.n.size() && g < m.counts().size(); ++g)
            if (m.counts(g) != r.n[g]) violation("counts", MC_S("counts(" << g << ") = " << m.counts(g) << ", should be " << r.n[g]));
        std::set<size_t> got(m.empty_groupids().begin(), m.empty_groupids().end()), want;
        for (size_t g = 0; g < r.n.size(); ++g) if (!r.n[g]) want.insert(g);
        if (got != want || m.empty_groupids().size() != want.size()) {
            std::string s; for (size_t g : got) s += MC_S(g << " ");
            violation("empty_groupids", MC_S("empty ids {" << s << "} for sizes " << vss(r.n)));
        }
        if ((long)m.sample_size() != r.total()) violation("sample_size", MC_S("sample_size " << m.sample_size() << " for sizes " << vss(r.n)));
    }
};
template<class Model, class Mix> void job(Model model, int max_total, int max_groups, vector<int> ks, const char * what, vector<Model> others = {}) {
    Context c(what);
    bool th = thorough();
    ClusterExplorer<Model, Mix, Book<Mix, Model>> e;
    e.model = model; e.max_total = max_total; e.max_groups = max_groups; e.ks = ks;
    e.others = others;
    if (ks.back() > 10000) e.starts = {{0}, {0, 0}, {70000, 0, 1}};
    e.run(others.size() || ks.back() > 10000 ? (th ? 5 : 4) : ks.size() > 1 ? (th ? 6 : 5) : (th ? 9 : 7), 40, th ? 400000 : 60000);
    sample(MC_S(what << ": up to " << max_total << " values in " << max_groups << " groups"));
}
template<class Model, class Mix> void lives(Model model, const char * what) {
    Context c(what);
    ClusterExplorer<Model, Mix, Book<Mix, Model>> e;
    e.model = model; e.max_total = 100000; e.max_groups = 100000; e.ks = {1, 2};
    e.lives(thorough() ? 600 : 200, thorough() ? 3000 : 1000);
}
int main(int argc, char ** argv) {
    PY py; py.alpha = 1.5f; py.d = .25f;
    LE le; le.dataset_size = 100;
    Jobs jobs;
    jobs.push_back({"py-cached-1", [=] { job<PY, PY::Mixture>(py, 8, 7, {1}, "PitmanYor::Mixture, single values"); }});
    jobs.push_back({"py-cached-k", [=] { job<PY, PY::Mixture>(py, 12, 6, {1, 2, 5}, "PitmanYor::Mixture, multiplicities"); }});
    jobs.push_back({"py-driver-1", [=] { job<PY, MixtureDriver<PY, int>>(py, 8, 7, {1}, "MixtureDriver<PitmanYor>, single values"); }});
    jobs.push_back({"py-driver-k", [=] { job<PY, MixtureDriver<PY, int>>(py, 12, 6, {1, 2, 5}, "MixtureDriver<PitmanYor>, multiplicities"); }});
    jobs.push_back({"le-1", [=] { job<LE, LE::Mixture>(le, 8, 7, {1}, "LowEntropy::Mixture, single values"); }});
    jobs.push_back({"le-k", [=] { job<LE, LE::Mixture>(le, 12, 6, {1, 3, 4}, "LowEntropy::Mixture, multiplicities"); }});
    PY py2; py2.alpha = .5f; py2.d = 0;
    LE le2; le2.dataset_size = 20;
    jobs.push_back({"py-cached-init", [=] { job<PY, PY::Mixture>(py, 5, 5, {1}, "PitmanYor::Mixture, re-initialised", {py2}); }});
    jobs.push_back({"le-init", [=] { job<LE, LE::Mixture>(le, 5, 5, {1}, "LowEntropy::Mixture, re-initialised", {le2}); }});
    LE wide; wide.dataset_size = 1000000;
    jobs.push_back({"py-cached-many", [=] { lives<PY, PY::Mixture>(py, "PitmanYor::Mixture"); }});
    jobs.push_back({"py-driver-many", [=] { lives<PY, MixtureDriver<PY, int>>(py, "MixtureDriver<PitmanYor>"); }});
    jobs.push_back({"le-many", [=] { lives<LE, LE::Mixture>(wide, "LowEntropy::Mixture"); }});
    le.dataset_size = 2000000000;
    jobs.push_back({"py-cached-large", [=] { job<PY, PY::Mixture>(py, 300000000, 5, {1, 300, 70000, 100000000}, "PitmanYor::Mixture, large multiplicities"); }});
    jobs.push_back({"le-large", [=] { job<LE, LE::Mixture>(le, 300000000, 5, {1, 300, 70000, 100000000}, "LowEntropy::Mixture, large multiplicities"); }});
    return main_(argc, argv, jobs);
}
