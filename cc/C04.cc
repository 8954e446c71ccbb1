// C04: incremental mixture scores equal scoring each group on its own.
#include "mixture_core.hpp"
using namespace mc;

struct Op { int kind; size_t g, v; };   // 0 add_group 1 remove_group 2 add 3 remove 4 re-init 5 init under other hyperparameters
static std::string op_s(const Op & o) {
    static const char * n[] = {"add_group", "remove_group", "add_value", "remove_value", "init", "init(other shared)"};
    std::string s = n[o.kind];
    if (o.kind == 1) s += MC_S("(" << o.g << ")");
    if (o.kind == 2 || o.kind == 3) s += MC_S("(" << o.g << ", #" << o.v << ")");
    return s;
}
template<class M, class Mix> struct Explorer {
    typedef Tr<M> T;
    typename M::Shared sh[2];
    Fresh<M> fr[2];
    size_t nvals, max_groups = 3;
    int max_count = 2;
    rng_t rng;
    struct St { Mix mix; vector<Bag> bags; int s; };

    vector<Op> ops(const St & st) {
        vector<Op> r;
        if (st.bags.size() < max_groups) r.push_back({0, 0, 0});
        for (size_t g = 0; g < st.bags.size(); ++g) r.push_back({1, g, 0});
        for (size_t g = 0; g < st.bags.size(); ++g)
            for (size_t v = 0; v < nvals; ++v) {
                if (st.bags[g][v] < max_count) r.push_back({2, g, v});
                if (st.bags[g][v] > 0) r.push_back({3, g, v});
            }
        r.push_back({4, 0, 0});
        r.push_back({5, 0, 0});
        return r;
    }
    void apply(St & st, const Op & o) {
        transition();
        const auto & shared = sh[st.s];
        typename M::Value x = fr[0].vals[o.v];
        switch (o.kind) {
            case 0: st.mix.add_group(shared, rng); st.bags.push_back(Bag(fr[0].vals.size(), 0)); break;
            case 1: st.mix.remove_group(shared, o.g); st.bags[o.g] = st.bags.back(); st.bags.pop_back(); break;
            case 2: st.mix.add_value(shared, o.g, x, rng); ++st.bags[o.g][o.v]; break;
            case 3: st.mix.remove_value(shared, o.g, x, rng); --st.bags[o.g][o.v]; break;
            case 4: st.mix.init(shared, rng); break;
            case 5: st.s ^= 1; st.mix.init(sh[st.s], rng); break;
        }
    }
    void check(const St & st) {
        check_mixture<M, Mix>("", st.mix, sh[st.s], fr[st.s], st.bags);
        try { st.mix.validate(sh[st.s]); } catch (const std::exception & e) { violation(MC_S(T::name() << "-validate"), e.what()); }
    }
    void dfs(const St & st, int depth) {
        check(st);
        if (!depth) { trace_done(); return; }
        for (auto & o : ops(st)) {
            Step step(op_s(o));
            St q = st;
            apply(q, o);
            dfs(q, depth - 1);
        }
    }
    std::string key(const St & st) {   // includes every observable score bit
        std::string k = MC_S(st.s << ";");
        for (auto & g : st.mix.groups()) k += T::raw(g) + ";";
        for (size_t i = 0; i < nvals; ++i) {
            typename M::Value x = fr[0].vals[i];
            Buf b(st.bags.size());
            st.mix.score_value(sh[st.s], x, b.v, rng);
            k.append((const char *)b.v.data(), 4 * b.v.size());
        }
        return k;
    }
    void bfs(const St & start, int depth, size_t cap) {
        std::unordered_set<std::string> seen;
        struct Node { St st; vector<Op> path; };
        std::deque<Node> q;
        q.push_back({start, {}});
        seen.insert(key(start));
        int done = 0;
        while (!q.empty()) {
            Node n = q.front(); q.pop_front();
            if ((int)n.path.size() >= depth) continue;
            done = n.path.size();
            for (auto & o : ops(n.st)) {
                Node m = n;
                m.path.push_back(o);
                apply(m.st, o);
                if (!seen.insert(key(m.st)).second) continue;
                state();
                store().path.clear();
                for (auto & p : m.path) store().path.push_back(op_s(p));
                check(m.st);
                store().path.clear();
                trace_done();
                if (seen.size() < cap) q.push_back(m);
            }
        }
        extra_max(MC_S("bfs_depth_" << T::name()), done + 1);
    }
    St start(const vector<Bag> & bags) {
        St st; st.s = 0; st.bags = bags;
        for (auto & b : bags) st.mix.groups().push_back(fresh<M>(sh[0], b));
        st.mix.init(sh[0], rng);
        return st;
    }
    void run(int si, const char * kind) {
        auto all = T::shareds();
        sh[0] = all[si]; sh[1] = all[(si + 1) % 2 == si ? 2 : (si + 1) % 2];
        if (si == 2) sh[1] = sh[0];      // may have another dimension or domain
        fr[0].set(sh[0]); fr[1].set(sh[1]);
        nvals = std::min<size_t>(fr[0].vals.size(), 3);
        bool big = sizeof(typename M::Shared) > 500;
        Context c(MC_S(T::name() << " " << kind << " hyperparameters #" << si));
        size_t n = fr[0].vals.size();
        Bag e(n, 0), one(e), two(e), three(e);
        one[0] = 1; two[0] = 1; two[1] = 2; three[n - 1] = 1;
        bool th = thorough();
        int d = big ? (th ? 3 : 2) : (th ? 5 : 4);
        vector<vector<Bag>> starts = {{}, {e}, {one, e}, {two, e, three}};
        for (auto & s : starts) {
            Step step(MC_S("groups() = " << vss(vector<std::string>{MC_S(s.size() << " preset")}) << "; init"));
            dfs(start(s), s.size() >= 2 ? d - 1 : d + (big ? 0 : 1));
        }
        bfs(start({}), th ? 8 : 6, big ? (th ? 6000 : 300) : (th ? 100000 : 10000));
        bfs(start({two, e, three}), th ? 6 : 4, big ? (th ? 6000 : 300) : (th ? 100000 : 10000));
        // every number of groups across the SIMD widths, then dissolving each
        max_groups = 100;
        for (size_t size = 1; size <= (th ? 70 : 37); size += big ? 5 : 1) {
            vector<Bag> bags;
            for (size_t g = 0; g < size; ++g) { Bag b(e); b[g % n] = g % 3; b[(g / n) % n] += g % 4; bags.push_back(b); }
            St st = start(bags);
            Step step(MC_S(size << " preset groups; init"));
            check(st);
            for (size_t g = 0; g < size; g += (size > 9 ? 4 : 1)) {
                St q = st;
                Op o{1, g, 0};
                Step step2(op_s(o));
                apply(q, o); check(q);
                Op p{0, 0, 0};
                Step step3(op_s(p));
                apply(q, p); check(q);
                Op a{2, size - 1, g % nvals};
                Step step4(op_s(a));
                apply(q, a); check(q);
                trace_done();
            }
        }
        sample(MC_S(T::name() << " " << kind << ": " << fr[0].memo.size() << " distinct group contents compared"));
    }
};
// Many observations of one value: checked around the limits of narrow counts, and after going back from there.
template<class M, class Mix> void many(int si, int limit, const char * kind) {
    typedef Tr<M> T;
    Explorer<M, Mix> e;
    e.sh[0] = e.sh[1] = T::shareds()[si];
    e.fr[0].set(e.sh[0]); e.fr[1].set(e.sh[0]);
    e.nvals = std::min<size_t>(e.fr[0].vals.size(), 3);
    size_t n = e.fr[0].vals.size();
    Context c(MC_S(T::name() << " " << kind << " hyperparameters #" << si));
    Bag one(n, 0), none(n, 0); one[0] = one[1] = 1;
    for (size_t v = 0; v < 2; ++v) {
        auto st = e.start({one, none});
        Step s0(MC_S("groups hold " << bag_s(one) << " and nothing; init"));
        for (int k = 1; k <= limit; ++k) {
            e.apply(st, {2, (size_t)(v ? k % 2 : 0), v});
            bool at = k == limit || k <= 20 || (k < 70000 && (!(k & (k - 1)) || !(k & (k + 1)) || !((k - 1) & (k - 2))));
            for (int b : {30, 50, 100, 200, 500, 1000, 2000, 5000, 10000, 50000}) at |= k >= b - 1 && k <= b + 1;
            for (int b : {128, 256, 512, 32768, 65536, 131072}) at |= k >= b - 2 && k <= b + 1;
            if (!at) continue;
            Step s1(MC_S("add_value #" << v << " " << k << " times" << (v ? ", to both groups in turn" : "")));
            check_mixture<M, Mix>("many-", st.mix, e.sh[0], e.fr[0], st.bags, k < 1000);
            for (Op o : {Op{3, 0, v}, Op{2, 1, 1 - v}, Op{0, 0, 0}, Op{1, 1, 0}}) {
                auto q = st;
                Step s2(op_s(o));
                e.apply(q, o);
                check_mixture<M, Mix>("many-", q.mix, e.sh[0], e.fr[0], q.bags, k < 1000);
                auto q2 = q;
                Op o2{4, 0, 0};
                e.apply(q2, o2);
                check_mixture<M, Mix>("many-", q2.mix, e.sh[0], e.fr[0], q2.bags, k < 1000);
            }
            e.fr[0].memo.clear();
            state(); trace_done();
        }
        // and back down to the start
        if (v && limit > 1000 && T::name() == std::string("gp")) continue;   // its log_prod is a running float sum
        for (int g = 0; g < 2; ++g) while (st.bags[g][v] > (g ? 0 : (int)one[v])) {
            e.apply(st, {3, (size_t)g, v});
            int k = st.bags[g][v];
            if ((k & (k - 1)) && (k & (k + 1))) continue;
            Step s1(MC_S("add_value #" << v << " " << limit << " times, remove_value down to " << bag_s(st.bags[0]) << bag_s(st.bags[1])));
            check_mixture<M, Mix>("many-", st.mix, e.sh[0], e.fr[0], st.bags, k < 1000);
        }
        sample(MC_S(T::name() << " " << kind << ": " << limit << " observations of one value, in and out"));
    }
}
template<class M> void fast(int si) { Explorer<M, typename M::FastMixture> e; e.run(si, "fast"); }
template<class M> void small(int si) { Explorer<M, typename M::SmallMixture> e; e.run(si, "small"); }

int main(int argc, char ** argv) {
    Jobs jobs;
    for (int si = 0; si < 3; ++si) {
        auto add = [&](const char * n, void (*f)(int), void (*s)(int)) {
            jobs.push_back({MC_S(n << "/fast/" << si), [=] { f(si); }});
            if (si == 0) jobs.push_back({MC_S(n << "/small/" << si), [=] { s(si); }});
        };
#if IN_PART(0)
        add("bb", fast<BetaBernoulli>, small<BetaBernoulli>);
        add("gp", fast<GammaPoisson>, small<GammaPoisson>);
#endif
#if IN_PART(1)
        add("bnb", fast<BetaNegativeBinomial>, small<BetaNegativeBinomial>);
        add("nich", fast<NormalInverseChiSq>, small<NormalInverseChiSq>);
#endif
#if IN_PART(2)
        add("dd4", fast<DirichletDiscrete<4>>, small<DirichletDiscrete<4>>);
#endif
#if IN_PART(3)
        add("dpd", fast<DirichletProcessDiscrete>, small<DirichletProcessDiscrete>);
#endif
    }
    const int lots = thorough() ? 140000 : 66000;
#if IN_PART(0)
    jobs.push_back({"many/bb", [=] { many<BetaBernoulli, BetaBernoulli::FastMixture>(0, lots, "fast"); }});
    jobs.push_back({"many/gp", [=] { many<GammaPoisson, GammaPoisson::FastMixture>(0, lots, "fast"); }});
#endif
#if IN_PART(1)
    jobs.push_back({"many/bnb", [=] { many<BetaNegativeBinomial, BetaNegativeBinomial::FastMixture>(0, lots, "fast"); }});
    jobs.push_back({"many/nich", [=] { many<NormalInverseChiSq, NormalInverseChiSq::FastMixture>(0, 600, "fast"); }});
#endif
#if IN_PART(2)
    jobs.push_back({"many/dd4", [=] { many<DirichletDiscrete<4>, DirichletDiscrete<4>::FastMixture>(0, lots, "fast"); }});
#endif
#if IN_PART(3)
    jobs.push_back({"many/dpd", [=] { many<DirichletProcessDiscrete, DirichletProcessDiscrete::FastMixture>(0, lots, "fast"); }});
#endif
#if IN_PART(2)
    jobs.push_back({"dd256/fast/2", [] { fast<DirichletDiscrete<256>>(2); }});
#endif
    return main_(argc, argv, jobs);
}
