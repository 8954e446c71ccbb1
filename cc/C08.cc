// C08: prior, features and ids stay in agreement under every reassignment history.
#include "mixture_core.hpp"
#include <distributions/clustering.hpp>
using namespace mc;
typedef Clustering<int>::PitmanYor PY;
typedef Clustering<int>::LowEntropy LE;
typedef std::shared_ptr<struct Feature> FeatureP;

struct Feature {   // one feature's mixture; bags hold the row numbers of each packed group
    virtual ~Feature() {}
    virtual FeatureP clone() const = 0;
    virtual void init(const vector<vector<int>> & rows) = 0;
    virtual void add_group() = 0;
    virtual void remove_group(size_t g) = 0;
    virtual void add(size_t g, int row) = 0;
    virtual void remove(size_t g, int row) = 0;
    virtual void score(int row, VectorFloat & v) = 0;       // as if the row were unassigned
    virtual float score_data() = 0;
    virtual void check(const vector<vector<int>> & rows) = 0;
    virtual std::string key() = 0;
};
template<class M> struct FeatureOf : Feature {
    typedef Tr<M> T;
    typename M::FastMixture mix;
    std::shared_ptr<Fresh<M>> fr;
    rng_t rng;
    int rows_now = 0, rows_peak = 0;
    explicit FeatureOf(int si) : fr(new Fresh<M>) { fr->set(T::shareds()[si]); }
    FeatureP clone() const { return FeatureP(new FeatureOf(*this)); }
    size_t index(int row) const { static const int of[] = {0, 1, 0, 2, 1}; return of[row % 5] % fr->vals.size(); }
    Bag bag(const vector<int> & rows) const { Bag b(fr->vals.size(), 0); for (int r : rows) ++b[index(r)]; return b; }
    void init(const vector<vector<int>> & rows) {
        mix.groups().clear();
        for (auto & g : rows) { mix.groups().push_back(typename M::Group()); mix.groups().back().init(fr->shared, rng); for (int r : g) { typename M::Value x = fr->vals[index(r)]; mix.groups().back().add_value(fr->shared, x, rng); } }
        mix.init(fr->shared, rng);
    }
    void add_group() { mix.add_group(fr->shared, rng); }
    void remove_group(size_t g) { mix.remove_group(fr->shared, g); }
    void add(size_t g, int row) { typename M::Value x = fr->vals[index(row)]; mix.add_value(fr->shared, g, x, rng); rows_peak = std::max(rows_peak, ++rows_now); }
    void remove(size_t g, int row) { --rows_now; typename M::Value x = fr->vals[index(row)]; mix.remove_value(fr->shared, g, x, rng); }
    void score(int row, VectorFloat & v) { typename M::Value x = fr->vals[index(row)]; mix.score_value(fr->shared, x, v, rng); }
    float score_data() { return mix.score_data(fr->shared, rng); }
    void check(const vector<vector<int>> & rows) {
        vector<Bag> bags;
        for (auto & r : rows) bags.push_back(bag(r));
        check_mixture<M>("", mix, fr->shared, *fr, bags, true, rows_peak < 100 ? 0 : 3e-6 * rows_peak);
    }
    std::string key() {
        std::string k;
        for (auto & g : mix.groups()) k += T::raw(g) + ";";
        for (auto v : fr->vals) { typename M::Value x = v; VectorFloat b(mix.groups().size()); mix.score_value(fr->shared, x, b, rng); k.append((const char *)b.data(), 4 * b.size()); }
        return k;
    }
};
// The Dirichlet process: rows' values enter and leave the shared state as well.
struct FeatureDpd : Feature {
    typedef DirichletProcessDiscrete M;
    M::Shared shared;
    M::FastMixture mix;
    rng_t rng;
    std::map<uint32_t, int> in_use;
    explicit FeatureDpd(float gamma) { shared.gamma = gamma; shared.alpha = 1.5f; shared.beta0 = 1.f; }
    FeatureP clone() const { return FeatureP(new FeatureDpd(*this)); }
    static uint32_t value(int row) { static const uint32_t of[] = {7, 0, 7, 4000000000u, 0}; return of[row % 5]; }
    void init(const vector<vector<int>> & rows) {
        mix.groups().clear();
        for (auto & g : rows) { mix.groups().push_back(M::Group()); mix.groups().back().init(shared, rng); for (int r : g) { if (!in_use_total(r)) {} shared.add_value(value(r), rng); ++in_use[value(r)]; mix.groups().back().add_value(shared, value(r), rng); } }
        mix.init(shared, rng);
    }
    int in_use_total(int r) { return in_use[value(r)]; }
    void add_group() { mix.add_group(shared, rng); }
    void remove_group(size_t g) { mix.remove_group(shared, g); }
    void add(size_t g, int row) { shared.add_value(value(row), rng); ++in_use[value(row)]; mix.add_value(shared, g, value(row), rng); }
    void remove(size_t g, int row) { mix.remove_value(shared, g, value(row), rng); shared.remove_value(value(row), rng); --in_use[value(row)]; }
    void score(int row, VectorFloat & v) { uint32_t x = shared.betas.contains(value(row)) ? value(row) : M::OTHER(); mix.score_value(shared, x, v, rng); }
    float score_data() { return mix.score_data(shared, rng); }
    void check(const vector<vector<int>> & rows) {
        eval();
        for (auto & p : in_use) {
            if (shared.counts.get_count(p.first) != p.second) violation("dpd-shared-count", MC_S("shared counts " << shared.counts.get_count(p.first) << " rows of value " << p.first << ", assigned are " << p.second));
            if (shared.betas.contains(p.first) != (p.second > 0)) { violation("dpd-shared-beta", MC_S("value " << p.first << " used by " << p.second << " rows, weight present: " << shared.betas.contains(p.first))); return; }
        }
        if (mix.groups().size() != rows.size()) { violation("dpd-size", MC_S("mixture has " << mix.groups().size() << " groups, expected " << rows.size())); return; }
        vector<M::Group> fresh;
        for (auto & r : rows) { M::Group g; g.init(shared, rng); for (int i : r) g.add_value(shared, value(i), rng); fresh.push_back(g); }
        vector<uint32_t> vals{M::OTHER()};
        for (auto & b : shared.betas) vals.push_back(b.first);
        for (uint32_t x : vals) {
            Buf buf(rows.size());
            mix.score_value(shared, x, buf.v, rng);
            for (size_t g = 0; g < rows.size(); ++g) {
                float want = fresh[g].score_value(shared, x, rng);
                float got = mix.score_value_group(shared, g, x, rng), acc = buf.v[g] - Buf::fill(g);
                if (!close(got, want, 1e-3, 1e-4) || !close(acc, want, 1e-3, 1e-4))
                    violation("dpd-score_value", MC_S("value " << x << " group " << g << ": score_value_group " << got << ", score_value " << acc << ", the group's rows on their own " << want));
            }
        }
        double sum = 0, more = 0;
        for (auto & g : fresh) { sum += g.score_data(shared, rng); double n = g.counts.get_total(); more += n < 100 ? 0 : 4e-6 * n * std::log(n); }
        if (!close(mix.score_data(shared, rng), sum, 5e-3 + more, 1e-4)) violation("dpd-score_data", MC_S("score_data " << mix.score_data(shared, rng) << ", sum over fresh groups " << sum));
        for (size_t g = 0; g < rows.size(); ++g)
            if (!fields_close(dump<M>(mix.groups(g)), dump<M>(fresh[g]), 0, 0)) violation("dpd-group", MC_S("group " << g << " dumps " << fields_s(dump<M>(mix.groups(g))) << ", its rows give " << fields_s(dump<M>(fresh[g]))));
        try { mix.validate(shared); } catch (const std::exception & e) { violation("dpd-validate", e.what()); }
    }
    std::string key() {
        std::string k;
        for (auto & g : mix.groups()) k += Tr<M>::raw(g) + ";";
        std::map<uint32_t, float> b(shared.betas.begin(), shared.betas.end());
        for (auto & p : b) {   // weights rounded: they drift along every path
            k += MC_S(p.first << "=" << (int)(p.second * 64) << ",");
        }
        return k;
    }
};

template<class Model, class Mix> struct World {
    Model model;
    Mix prior;
    MixtureIdTracker ids;
    vector<FeatureP> features;
    // reference
    vector<int> assign;                // row -> global id, or -1
    vector<uint32_t> globals;          // packed -> global id
    uint32_t next_global = 0;
    World() {}
    World(const World & o) : model(o.model), prior(o.prior), ids(o.ids), assign(o.assign), globals(o.globals), next_global(o.next_global) { for (auto & f : o.features) features.push_back(f->clone()); }
    World & operator=(const World &) = delete;
    vector<vector<int>> rows() const {
        vector<vector<int>> r(globals.size());
        for (size_t i = 0; i < assign.size(); ++i) if (assign[i] >= 0) for (size_t g = 0; g < globals.size(); ++g) if ((int)globals[g] == assign[i]) r[g].push_back(i);
        return r;
    }
    void init(size_t groups, const vector<int> & preset) {   // preset: row -> packed group
        assign.assign(preset.size(), -1);
        for (size_t g = 0; g < groups; ++g) globals.push_back(next_global++);
        for (size_t i = 0; i < preset.size(); ++i) if (preset[i] >= 0) assign[i] = preset[i];
        auto r = rows();
        prior.counts().clear();
        for (auto & x : r) prior.counts().push_back(x.size());
        prior.init(model);
        ids.init(groups);
        for (auto & f : features) f->init(r);
    }
    void do_assign(int row, size_t g) {
        transition();
        assign[row] = globals[g];
        bool empty = rows()[g].size() == 1;
        uint32_t global = ids.packed_to_global(g);
        if (global != globals[g]) violation("id", MC_S("packed " << g << " is global " << global << ", should be " << globals[g]));
        bool created = prior.add_value(model, g);
        if (created != empty) violation("flag", MC_S("assigning row " << row << " to group " << g << " reports created=" << created));
        for (auto & f : features) f->add(g, row);
        if (created) { for (auto & f : features) f->add_group(); ids.add_group(); }
        if (empty) globals.push_back(next_global++);
    }
    void do_unassign(int row) {
        transition();
        size_t want = 0;
        while ((int)globals[want] != assign[row]) ++want;
        size_t g = ids.global_to_packed(assign[row]);
        if (g != want) violation("id", MC_S("row " << row << "'s global id " << assign[row] << " is packed " << g << ", should be " << want));
        assign[row] = -1;
        bool emptied = rows()[want].empty();
        bool removed = prior.remove_value(model, g);
        if (removed != emptied) violation("flag", MC_S("unassigning row " << row << " from group " << g << " reports removed=" << removed));
        for (auto & f : features) f->remove(g, row);
        if (removed) { for (auto & f : features) f->remove_group(g); ids.remove_group(g); }
        if (emptied) { globals[want] = globals.back(); globals.pop_back(); }
    }
    bool check() {   // false: the bookkeeping broke, drive no further
        eval();
        auto r = rows();
        vector<int> sizes;
        for (auto & x : r) sizes.push_back(x.size());
        if (prior.counts() != sizes) { violation("sizes", MC_S("cluster sizes " << vss(prior.counts()) << ", assigned rows give " << vss(sizes))); return false; }
        if (ids.packed_size() != globals.size() || ids.global_size() != next_global) { violation("ids", "id tracker has the wrong size"); return false; }
        for (size_t g = 0; g < globals.size(); ++g) if (ids.packed_to_global(g) != globals[g] || ids.global_to_packed(globals[g]) != g) { violation("ids", MC_S("packed " << g << " is global " << ids.packed_to_global(g) << ", should be " << globals[g])); return false; }
        for (auto & f : features) f->check(r);
        // combined scores against a world rebuilt from scratch
        Mix again;
        again.counts() = sizes;
        again.init(model);
        for (size_t row = 0; row < assign.size(); ++row) {
            if (row >= 5 && row + 1 < assign.size()) continue;   // rows repeat in fives
            VectorFloat a(sizes.size()), b(sizes.size());
            prior.score_value(model, a);
            again.score_value(model, b);
            for (auto & f : features) f->score(row, a);
            vector<float> full(a.begin(), a.end());
            for (auto & f : features) { auto c = f->clone(); rebuild(*c, r); c->score(row, b); }
            for (size_t g = 0; g < sizes.size(); ++g)
                if (!close(a[g], b[g], 5e-3 + (sizes[g] < 100 ? 0 : 8e-6 * sizes[g] * std::log(sizes[g])), 2e-4)) violation("combined", MC_S("row " << row << " in group " << g << " of sizes " << vss(sizes) << " scores " << a[g] << ", rebuilt from scratch " << b[g]));
        }
        if (!close(prior.score_data(model), again.score_data(model), 1e-3, 1e-4)) violation("combined-data", "prior's data score differs from the rebuilt one");
        return true;
    }
    static void rebuild(Feature & f, const vector<vector<int>> & r) {
        if (auto d = dynamic_cast<FeatureDpd *>(&f)) {   // keeps its shared state
            d->mix = DirichletProcessDiscrete::FastMixture();
            for (auto & g : r) { d->mix.groups().push_back(DirichletProcessDiscrete::Group()); d->mix.groups().back().init(d->shared, d->rng); for (int i : g) d->mix.groups().back().add_value(d->shared, FeatureDpd::value(i), d->rng); }
            d->mix.init(d->shared, d->rng);
        } else f.init(r);
    }
    std::string key() {
        std::string k = MC_S(next_global << ":");
        for (auto g : globals) k += MC_S(g << ",");
        for (auto a : assign) k += MC_S(a << ";");
        VectorFloat v(globals.size());
        prior.score_value(model, v);
        k.append((const char *)v.data(), 4 * v.size());
        for (auto & f : features) k += f->key();
        return k;
    }
};
struct Op { int row; int g; };   // g < 0: unassign
static std::string op_s(const Op & o) { return o.g < 0 ? MC_S("unassign(row " << o.row << ")") : MC_S("assign(row " << o.row << ", group " << o.g << ")"); }

template<class Model, class Mix> struct Explorer {
    typedef World<Model, Mix> W;
    size_t max_groups = 6;
    vector<Op> ops(const W & w) {
        vector<Op> r;
        auto rows = w.rows();
        for (int i = 0; i < (int)w.assign.size(); ++i) {
            if (w.assign[i] >= 0) { r.push_back({i, -1}); continue; }
            for (int g = 0; g < (int)rows.size(); ++g) if (rows[g].size() || rows.size() < max_groups) r.push_back({i, g});
        }
        return r;
    }
    void apply(W & w, const Op & o) { if (o.g < 0) w.do_unassign(o.row); else w.do_assign(o.row, o.g); }
    void dfs(W & w, int depth) {
        if (!w.check()) return;
        if (!depth) { trace_done(); return; }
        for (auto & o : ops(w)) {
            Step st(op_s(o));
            W q(w);
            apply(q, o);
            dfs(q, depth - 1);
        }
    }
    void bfs(W & start, int depth, size_t cap) {
        std::unordered_set<std::string> seen;
        struct Node { std::shared_ptr<W> w; vector<Op> path; };
        std::deque<Node> q;
        q.push_back({std::make_shared<W>(start), {}});
        int done = 0;
        while (!q.empty()) {
            Node n = q.front(); q.pop_front();
            if ((int)n.path.size() >= depth || seen.size() >= cap) continue;
            done = std::max<int>(done, n.path.size());
            for (auto & o : ops(*n.w)) {
                Node m{std::make_shared<W>(*n.w), n.path};
                m.path.push_back(o);
                auto old = store().path;
                for (auto & p : m.path) store().path.push_back(op_s(p));
                apply(*m.w, o);
                bool fresh = seen.insert(m.w->key()).second, ok = true;
                if (fresh) { state(); trace_done(); ok = m.w->check(); }
                store().path = old;
                if (fresh && ok) q.push_back(m);
            }
        }
        extra_max("bfs_depth", done + 1);
    }
    // long histories: many rows in few clusters, and many clusters, filled and emptied in several orders
    void long_run(Model model, const vector<FeatureP> & features, int rows, int clusters, int order) {
        W w;
        w.model = model;
        for (auto & f : features) w.features.push_back(f->clone());
        w.init(2, vector<int>(rows, -1));
        Step st(MC_S(rows << " rows assigned in turn to " << clusters << " clusters, then " << (order == 0 ? "unassigned first to last" : order == 1 ? "unassigned last to first" : "every third unassigned, then the rest")));
        auto special = [&](int i) { return i < 3 || i % (rows / 9) == 0 || i == rows - 1 || (i & (i - 1)) == 0 || ((i + 1) & i) == 0; };
        int done = 0;
        auto step = [&](int row, bool in) {
            if (in) {
                // clusters take turns; the last packed group is always an empty one
                size_t g = (int)w.globals.size() <= clusters ? 0 : row % clusters;
                auto n = w.prior.counts();
                if ((int)w.globals.size() <= clusters) for (size_t i = 0; i < n.size(); ++i) if (!n[i]) { g = i; break; }
                w.do_assign(row, g);
            } else w.do_unassign(row);
            if (!special(done++)) return true;
            Step s2(MC_S("... " << (in ? "assign" : "unassign") << "(row " << row << ")"));
            return w.check();
        };
        vector<int> out;
        for (int i = 0; i < rows; ++i) if (order != 2) out.push_back(order ? rows - 1 - i : i);
        if (order == 2) for (int k = 0; k < 3; ++k) for (int i = k; i < rows; i += 3) out.push_back(i);
        for (int i = 0; i < rows; ++i) if (!step(i, true)) return;
        done = 0;
        for (int i : out) if (!step(i, false)) return;
        done = 0;
        for (int i = 0; i < rows / 10; ++i) if (!step(i, true)) return;
        state(); trace_done();
    }
    void run(Model model, const vector<FeatureP> & features) {
        struct Start { size_t groups; vector<int> preset; };
        vector<Start> starts = {{1, {-1, -1, -1}}, {2, {-1, -1, -1, -1}}, {3, {0, 0, 2, -1}}, {4, {0, 1, 2, 0, 1}}, {4, {3, 0, 1, 1, -1}}};
        bool th = thorough();
        for (size_t i = 0; i < starts.size(); ++i) {
            W w;
            w.model = model;
            for (auto & f : features) w.features.push_back(f->clone());
            w.init(starts[i].groups, starts[i].preset);
            Step st(MC_S(starts[i].groups << " groups, rows " << vss(starts[i].preset) << "; init"));
            dfs(w, i == 0 ? (th ? 7 : 5) : i < 3 ? (th ? 5 : 4) : (th ? 5 : 3));
            if (i == 1 || i == 3) bfs(w, 20, th ? 30000 : 2500);
        }
        sample(MC_S(starts.size() << " start configurations of up to 5 rows and " << features.size() << " features"));
    }
};
template<class Model, class Mix> void job(Model model, int which, const char * what, bool long_ = false) {
    vector<FeatureP> f;
    if (which == 0) { f.push_back(FeatureP(new FeatureOf<BetaBernoulli>(0))); f.push_back(FeatureP(new FeatureOf<NormalInverseChiSq>(1))); }
    if (which == 1) { f.push_back(FeatureP(new FeatureOf<GammaPoisson>(1))); f.push_back(FeatureP(new FeatureOf<DirichletDiscrete<4>>(0))); }
    if (which == 2) { f.push_back(FeatureP(new FeatureDpd(.5f))); f.push_back(FeatureP(new FeatureOf<BetaNegativeBinomial>(0))); }
    if (which == 3) { f.push_back(FeatureP(new FeatureDpd(4.f))); f.push_back(FeatureP(new FeatureDpd(.02f))); f.push_back(FeatureP(new FeatureOf<DirichletProcessDiscrete>(1))); }
    Context c(MC_S(what << " features set " << which));
    Explorer<Model, Mix> e;
    if (!long_) { e.run(model, f); return; }
    for (int order = 0; order < 3; ++order) {
        e.long_run(model, f, thorough() ? 2000 : 650, 1, order);
        e.long_run(model, f, thorough() ? 2000 : 650, 2, order);
        e.long_run(model, f, thorough() ? 300 : 80, thorough() ? 290 : 75, order);
    }
}
int main(int argc, char ** argv) {
    PY py; py.alpha = 1.5f; py.d = .25f;
    LE le; le.dataset_size = 40;
    Jobs jobs;
    for (int w = 0; w < 4; ++w) {
        jobs.push_back({MC_S("py/" << w), [=] { job<PY, PY::Mixture>(py, w, "PitmanYor"); }});
        jobs.push_back({MC_S("le/" << w), [=] { job<LE, LE::Mixture>(le, w, "LowEntropy"); }});
    }
    le.dataset_size = 3000;
    for (int w = 0; w < 4; ++w) {
        jobs.push_back({MC_S("long/py/" << w), [=] { job<PY, PY::Mixture>(py, w, "PitmanYor", true); }});
        if (w == 3) jobs.push_back({MC_S("long/le/" << w), [=] { job<LE, LE::Mixture>(le, w, "LowEntropy", true); }});
    }
    return main_(argc, argv, jobs);
}
