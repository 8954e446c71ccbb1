// C09: global group ids are stable, unique and never reused.
#include "mc.hpp"
#include <random>
#include <memory>
#include <iostream>
#include <mutex>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <distributions/common.hpp>
#include <distributions/random_fwd.hpp>
#include <distributions/vector.hpp>
#include <distributions/mixture.hpp>
using namespace mc;
using namespace distributions;
using std::vector;
struct Ref { vector<uint32_t> ids; uint32_t next = 0; };
struct St { MixtureIdTracker t; Ref r; };
struct Op { int kind; size_t n; };   // 0 init(n) 1 add 2 remove(n)
static std::string op_s(const Op & o) { return o.kind == 0 ? MC_S("init(" << o.n << ")") : o.kind == 1 ? std::string("add_group") : MC_S("remove_group(" << o.n << ")"); }
static void apply(St & s, const Op & o) {
    transition();
    if (o.kind == 0) { s.t.init(o.n); s.r.ids.clear(); s.r.next = 0; for (size_t i = 0; i < o.n; ++i) s.r.ids.push_back(s.r.next++); }
    if (o.kind == 1) { s.t.add_group(); s.r.ids.push_back(s.r.next++); }
    if (o.kind == 2) { s.t.remove_group(o.n); s.r.ids[o.n] = s.r.ids.back(); s.r.ids.pop_back(); }
}
static void check(const St & s) {
    eval();
    if (s.t.packed_size() != s.r.ids.size()) { violation("packed_size", MC_S(s.t.packed_size() << " groups, should be " << s.r.ids.size())); return; }
    if (s.t.global_size() != s.r.next) violation("global_size", MC_S(s.t.global_size() << " ids given out, should be " << s.r.next));
    for (size_t p = 0; p < s.r.ids.size(); ++p) {
        uint32_t g = s.t.packed_to_global(p);
        if (g != s.r.ids[p]) violation("packed_to_global", MC_S("packed " << p << " is global " << g << ", should be " << s.r.ids[p]));
        try {
            uint32_t q = s.t.global_to_packed(s.r.ids[p]);
            if (q != p) violation("global_to_packed", MC_S("global " << s.r.ids[p] << " is packed " << q << ", should be " << p));
        } catch (const std::exception & e) { violation("global_to_packed", MC_S("live global id " << s.r.ids[p] << " refused: " << e.what())); }
    }
    std::set<uint32_t> live(s.r.ids.begin(), s.r.ids.end());
    for (uint32_t g = 0; g <= s.r.next; ++g) if (!live.count(g)) {
        bool refused = false;
        try { s.t.global_to_packed(g); } catch (const std::exception &) { refused = true; }
        if (!refused) violation("stale_id", MC_S("global id " << g << " is translated although its group is gone"));
    }
}
static vector<Op> ops(const St & s, size_t max_groups, bool inits) {
    vector<Op> r;
    if (s.r.ids.size() < max_groups) r.push_back({1, 0});
    for (size_t p = 0; p < s.r.ids.size(); ++p) r.push_back({2, p});
    if (inits) for (size_t n = 0; n <= 3; ++n) r.push_back({0, n});
    return r;
}
static void dfs(const St & s, int depth, size_t max_groups, bool inits) {
    check(s);
    if (!depth) { trace_done(); return; }
    for (auto & o : ops(s, max_groups, inits)) {
        Step st(op_s(o));
        St q = s;
        apply(q, o);
        dfs(q, depth - 1, max_groups, inits);
    }
}
static void bfs(int depth, size_t max_groups) {
    std::set<std::pair<uint32_t, vector<uint32_t>>> seen;
    struct Node { St s; vector<Op> path; };
    std::deque<Node> q;
    Node n0; n0.s.t.init(); q.push_back(n0);
    while (!q.empty()) {
        Node n = q.front(); q.pop_front();
        if ((int)n.path.size() >= depth) continue;
        for (auto & o : ops(n.s, max_groups, false)) {
            Node m = n;
            m.path.push_back(o);
            store().path.clear();
            for (auto & p : m.path) store().path.push_back(op_s(p));
            apply(m.s, o);
            if (!seen.insert({m.s.r.next, m.s.r.ids}).second) continue;
            state(); trace_done();
            check(m.s);
            q.push_back(m);
        }
    }
    store().path.clear();
    extra_max("bfs_depth", depth);
}
int main(int argc, char ** argv) {
    Jobs jobs;
    jobs.push_back({"sequences-with-init", [] { St s; s.t.init(); dfs(s, thorough() ? 8 : 6, 4, true); sample("all sequences with init(0..3), up to 4 groups"); }});
    jobs.push_back({"sequences", [] { St s; Step st("init(2)"); apply(s, {0, 2}); dfs(s, thorough() ? 11 : 9, 5, false); sample("all sequences from init(2), up to 5 groups"); }});
    jobs.push_back({"states", [] { bfs(thorough() ? 13 : 11, 6); sample("breadth-first over id states"); }});
    jobs.push_back({"large", [] {   // every removal position in trackers past the hash table's growth points
        for (size_t n = 1; n <= (thorough() ? 400 : 150); ++n) {
            for (size_t i = 0; i < n; i += (n > 40 ? 7 : 1)) {
                St s;
                Step st(MC_S("init(" << n << ")"));
                apply(s, {0, n});
                Op ops_[] = {{2, i}, {1, 0}, {2, n / 2}, {1, 0}, {1, 0}, {2, 0}};
                for (auto & o : ops_) { store().path.push_back(op_s(o)); apply(s, o); }
                check(s);
                for (size_t k = 0; k < sizeof ops_ / sizeof *ops_; ++k) store().path.pop_back();
                state(); trace_done();
            }
        }
    }});
    for (int keep : {1, 3, 40}) jobs.push_back({MC_S("long/" << keep), [keep] {   // a long life: ids past every narrow integer's range
        St s;
        Step st(MC_S("init(" << keep << "), then add_group and remove_group in turn"));
        apply(s, {0, (size_t)keep});
        uint32_t turns = thorough() ? 20000000 : 400000;
        for (uint32_t i = 0; i < turns; ++i) {
            apply(s, {1, 0});
            uint32_t id = s.r.next - 1;
            eval();
            if (s.t.packed_to_global(keep) != id || s.t.global_to_packed(id) != (uint32_t)keep)
                { violation("new_id", MC_S("group number " << s.r.next << " gets id " << s.t.packed_to_global(keep))); return; }
            apply(s, {2, i % (keep + 1)});
            if (s.t.packed_size() != (size_t)keep || s.t.global_size() != s.r.next) { violation("sizes", MC_S("after " << i + 1 << " turns: " << s.t.packed_size() << " groups, " << s.t.global_size() << " ids given out")); return; }
            uint32_t p = i % keep;
            if (s.t.packed_to_global(p) != s.r.ids[p] || s.t.global_to_packed(s.r.ids[p]) != p) { violation("translation", MC_S("after " << i + 1 << " turns packed " << p << " is global " << s.t.packed_to_global(p) << ", should be " << s.r.ids[p])); return; }
        }
        if (!thorough()) check(s);
        state(); trace_done();
    }});
    return main_(argc, argv, jobs);
}
