// C24: the release build computes what the checked build computes.
// The checked binary runs every history, starts the release binary on the same
// job and compares the two transcripts record by record as they are produced.
#pragma once
#include "models.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <functional>
using namespace mc;
struct Stop : std::exception { const char * what() const noexcept { return "transcripts out of step"; } };
struct Peer {
    bool slave = false; FILE * f = nullptr; pid_t pid = 0;
    long soft = 0, soft_bad = 0;
    std::string soft_example;
    struct Rec { char kind; char pad[7]; union { int64_t i; double d; }; };
    void start(const char * job) {
        const char * exe = getenv(PEER_ENV) ? getenv(PEER_ENV) : "";
        int p[2];
        if (pipe(p)) { perror("pipe"); _exit(4); }
        pid = fork();
        if (!pid) { dup2(p[1], 1); close(p[0]); close(p[1]); execl(exe, exe, ("--tier=" + opt().tier).c_str(), "--slave", ("--job=" + std::string(job)).c_str(), (char *)0); _exit(127); }
        close(p[1]);
        f = fdopen(p[0], "r");
        setvbuf(f, nullptr, _IOFBF, 1 << 16);
    }
    bool next(Rec & r) { return fread(&r, sizeof r, 1, f) == 1; }
    void put(char kind, int64_t i, double d) { Rec r; memset(&r, 0, sizeof r); r.kind = kind; if (kind == 'i' || kind == 'I') r.i = i; else r.d = d; fwrite(&r, sizeof r, 1, f); }
    void finish() {
        if (slave) { put('e', 0, 0); fflush(f); return; }
        Rec r;
        if (!next(r) || r.kind != 'e') violation("transcript", "the release build's transcript does not end where the checked build's does");
        fclose(f); int st = 0; waitpid(pid, &st, 0);
        if (st) violation("release-crash", MC_S("the release build ended with status " << st));
        extra("sampled_records", soft); extra("sampled_records_that_differ", soft_bad);
        if (soft_bad > 2 + soft / 500) violation("sampled", MC_S(soft_bad << " of " << soft << " sampled results differ; first: " << soft_example));
    }
    void rec(char kind, int64_t i, double d, double tol, const char * what) {
        if (slave) { put(kind, i, d); return; }
        eval();
        Rec r;
        if (!next(r)) { violation("release-crash", MC_S("the release build stopped before " << what)); throw Stop(); }
        if (r.kind != kind) { violation("transcript", MC_S("the release build does something else at " << what)); throw Stop(); }
        if (kind == 'i' && r.i != i) { violation(std::string("int-") + what, MC_S(what << ": checked build " << i << ", release build " << r.i)); throw Stop(); }
        if (kind == 'f' && !close(r.d, d, tol, tol) && !(r.d == d)) violation(std::string("float-") + what, MC_S(what << ": checked build " << d << ", release build " << r.d));
        if (kind == 'I' || kind == 'F') { ++soft; if (kind == 'I' ? r.i != i : !close(r.d, d, tol, tol)) { if (!soft_bad++) soft_example = MC_S(what << ": checked build " << (kind == 'I' ? (double)i : d) << ", release build " << (kind == 'I' ? (double)r.i : r.d) << " || history: " << path_string()); } }
    }
};
static Peer peer;
inline void emit_int(int64_t i, const char * what) { peer.rec('i', i, 0, 0, what); }
inline void emit_float(double d, const char * what, double tol = 2e-4) { peer.rec('f', 0, d, tol, what); }
// results of samplers: a rounding difference may tip a comparison once in a great while
inline void emit_sampled_int(int64_t i, const char * what) { peer.rec('I', i, 0, 0, what); }
inline void emit_sampled(double d, const char * what, double tol = 1e-3) { peer.rec('F', 0, d, tol, what); }
inline void emit_rng(const rng_t & r) { rng_t c(r); peer.rec('I', c(), 0, 0, "generator state"); }

// statistics lose digits relative to the largest value they held on the way
static double reached = 0;
struct Reached { double old; Reached() : old(reached) {} ~Reached() { reached = old; } };
template<class M> void emit_group(const typename M::Group & g) { auto d = dump<M>(g); for (auto & p : d) reached = std::max(reached, std::fabs((double)p.second)); for (auto & p : d) emit_float(p.second, "group statistic", 1e-5 + 2e-6 * reached); }
// scores are differences of log gammas, which lose digits with the size of the statistics
inline double score_tol(double least = 2e-4) { return std::max(least, 2e-4 + std::min(1e-6 * reached * std::log(2 + reached), .05)); }
template<class M> struct ModelHistories {
    typedef Tr<M> T; typedef typename M::Value Value; typedef typename M::Group Group; typedef typename M::Shared Shared;
    Shared shared; vector<Value> vals; rng_t rng; double sample_tol = std::is_class<Value>::value ? 2e-2 : 1e-3;
    void emit(const Group & g, const Bag & n) {
        emit_group<M>(g);
        if (!nonneg(n)) return;
        for (auto v : vals) { Value x = v; emit_float(g.score_value(shared, x, rng), "group score", score_tol()); typename M::Scorer s; s.init(shared, g, rng); emit_float(s.eval(shared, x, rng), "scorer", score_tol()); }
        emit_float(g.score_data(shared, rng), "group data score", score_tol());
    }
    void groups(const Group & g, const Bag & n, int depth) {
        Reached keep;
        state(); emit(g, n);
        if (!depth) { trace_done(); return; }
        for (int kind = 0; kind < 5; ++kind) for (size_t v = 0; v < (kind < 3 ? vals.size() : 1); ++v) {
            if (kind == 2 && n[v] <= (T::debt ? -1 : 0)) continue;
            static const char * names[] = {"add", "add x6", "remove", "merge", "init"};
            Step st(MC_S(names[kind] << " #" << v));
            Group h(g); Bag b(n); Value x = vals[v];
            switch (kind) {
                case 0: h.add_value(shared, x, rng); ++b[v]; break;
                case 1: h.add_repeated_value(shared, x, 6, rng); b[v] += 6; break;
                case 2: h.remove_value(shared, x, rng); --b[v]; break;
                case 3: { Group o = fresh<M>(shared, Bag(vals.size(), 1)); h.merge(shared, o, rng); for (auto & c : b) ++c; break; }
                case 4: h.init(shared, rng); b.assign(b.size(), 0); break;
            }
            transition();
            groups(h, b, depth - 1);
        }
    }
    template<class Mix> void emit_mix(const Mix & m) {
        emit_int(m.groups().size(), "number of groups");
        for (auto & g : m.groups()) emit_group<M>(g);
        for (auto v : vals) {
            Value x = v; VectorFloat f(m.groups().size()); for (auto & z : f) z = .5f;
            m.score_value(shared, x, f, rng);
            for (float z : f) emit_float(z, "mixture score", score_tol());
            for (size_t g = 0; g < f.size(); ++g) emit_float(m.score_value_group(shared, g, x, rng), "score of one group", score_tol());
        }
        emit_float(m.score_data(shared, rng), "mixture data score", score_tol(5e-4));
    }
    template<class Mix> void mixture(const Mix & m, const vector<Bag> & bags, int depth) {
        Reached keep; state(); emit_mix(m);
        if (!depth) { trace_done(); return; }
        auto go = [&](const std::string & name, std::function<void(Mix &, vector<Bag> &)> op) { Step st(name); Mix x(m); vector<Bag> b(bags); transition(); op(x, b); mixture(x, b, depth - 1); };
        if (bags.size() < 4) go("add_group", [&](Mix & x, vector<Bag> & b) { x.add_group(shared, rng); b.push_back(Bag(vals.size(), 0)); });
        go("init", [&](Mix & x, vector<Bag> &) { x.init(shared, rng); });
        for (size_t g = 0; g < bags.size(); ++g) {
            go(MC_S("remove_group(" << g << ")"), [&](Mix & x, vector<Bag> & b) { x.remove_group(shared, g); b[g] = b.back(); b.pop_back(); });
            for (size_t v = 0; v < std::min<size_t>(vals.size(), 3); ++v) {
                go(MC_S("add(#" << v << ", " << g << ")"), [&](Mix & x, vector<Bag> & b) { Value y = vals[v]; x.add_value(shared, g, y, rng); ++b[g][v]; });
                if (bags[g][v] > 0) go(MC_S("remove(#" << v << ", " << g << ")"), [&](Mix & x, vector<Bag> & b) { Value y = vals[v]; x.remove_value(shared, g, y, rng); --b[g][v]; });
            }
        }
    }
    template<class MM = M> typename std::enable_if<Tr<MM>::has_mixture>::type mixtures(int depth) { typename MM::Mixture m; for (int i = 0; i < 2; ++i) m.groups().push_back(fresh<M>(shared, Bag(vals.size(), 0))); m.init(shared, rng); mixture(m, vector<Bag>(2, Bag(vals.size(), 0)), depth); }
    template<class MM = M> typename std::enable_if<!Tr<MM>::has_mixture>::type mixtures(int) {}
    // mixtures of many groups, and groups that have held many values
    static Bag bag_at(size_t n, size_t i) { Bag b(n, 0); for (size_t v = 0; v < n; ++v) b[v] = (i * 5 + v * 3) % 7 == 0 ? 0 : (i + v) % 4 + (i % 11 == 3 ? 40 : 0); return b; }
    template<class MM = M> typename std::enable_if<Tr<MM>::has_mixture>::type wide(int size) {
        Context c(MC_S(size << " groups")); Reached keep;
        typename MM::Mixture m; vector<Bag> bags;
        for (int i = 0; i < size; ++i) { bags.push_back(bag_at(vals.size(), i)); m.groups().push_back(fresh<M>(shared, bags.back())); }
        m.init(shared, rng); state(); emit_mix(m);
        for (int step = 0; step < 2 * size + 3; ++step) {
            size_t g = (step * 7 + 3) % m.groups().size(), v = step % vals.size(); Value y = vals[v];
            Step st(MC_S("step " << step)); transition();
            switch (step % 5) {
                case 0: m.add_value(shared, g, y, rng); ++bags[g][v]; break;
                case 1: case 4: if (bags[g][v] > 0) { m.remove_value(shared, g, y, rng); --bags[g][v]; } else { m.add_value(shared, g, y, rng); ++bags[g][v]; } break;
                case 2: m.add_group(shared, rng); bags.push_back(Bag(vals.size(), 0)); break;
                case 3: if (bags.size() > 1) { m.remove_group(shared, g); bags[g] = bags.back(); bags.pop_back(); } break;
            }
            state(); emit_mix(m);
        }
        trace_done();
    }
    template<class MM = M> typename std::enable_if<!Tr<MM>::has_mixture>::type wide(int) {}
    void longs(int most) {
        Context c("long life"); Reached keep;
        Group g; g.init(shared, rng); Bag b(vals.size(), 0); int next = 1;
        for (int i = 0; i < most; ++i) {
            size_t v = i * i % 3 % vals.size(); Value y = vals[v];
            if (i % 5 == 4 && b[v] > 0) { g.remove_value(shared, y, rng); --b[v]; } else if (i % 7 == 6) { g.add_repeated_value(shared, y, 3, rng); b[v] += 3; } else { g.add_value(shared, y, rng); ++b[v]; }
            transition();
            if (i + 1 >= next) { Step st(MC_S("after " << i + 1 << " operations")); next += next / 3 + 1; state(); emit(g, b); }
        }
        trace_done();
    }
    template<class V> static double number(const V & v) { return v; }
    template<class F, int D> static double number(const Eigen_::Matrix<F, D, 1> & v) { return v.sum(); }
    void samples(int n) {
        for (auto & b : {Bag(vals.size(), 0), Bag(vals.size(), 1), Bag(vals.size(), 30)}) {
            Group g = fresh<M>(shared, b);
            Step st("samples from " + bag_s(b)); state();
            for (int i = 1; i <= n; ++i) {
                rng_t r(i * 7919u + 17);
                emit_sampled(number(g.sample_value(shared, r)), "sampled value", sample_tol); emit_rng(r);
                typename M::Sampler s; s.init(shared, g, r); emit_sampled(number(s.eval(shared, r)), "sampled value", sample_tol); transition(2);
            }
            trace_done();
        }
    }
    void run(int si, int depth, int n) {
        shared = T::shareds()[si];
        for (auto v : T::values(shared)) vals.push_back(v);
        Context c(MC_S(T::name() << " hyperparameters #" << si));
        Group g; g.init(shared, rng);
        groups(g, Bag(vals.size(), 0), depth);
        mixtures(T::has_mixture ? depth : 0);
        for (int n : {5, 8, 16, 17, 33, 70}) wide(n);
        longs(thorough() ? 20000 : 3000);
        samples(n);
    }
};
template<class M> void add_model(Jobs & jobs, int depth, int samples, size_t settings = 3) { for (size_t i = 0; i < settings; ++i) jobs.push_back({MC_S(Tr<M>::name() << "/" << i), [=] { ModelHistories<M> h; h.run(i, depth, samples); }}); }
inline int main24(int argc, char ** argv, Jobs jobs) {
    std::vector<char *> args;
    for (int i = 0; i < argc; ++i) if (!strcmp(argv[i], "--slave")) peer.slave = true; else args.push_back(argv[i]);
    for (auto & j : jobs) {
        auto f = j.second; std::string name = j.first;
        j.second = [f, name] {
            if (peer.slave) { peer.f = fdopen(dup(1), "w"); dup2(2, 1); setvbuf(peer.f, nullptr, _IOFBF, 1 << 16); f(); peer.finish(); _exit(0); }
            peer.start(name.c_str());
            try { f(); } catch (Stop &) { kill(peer.pid, SIGKILL); return; }
            peer.finish();
        };
    }
    return main_(args.size(), args.data(), jobs);
}
