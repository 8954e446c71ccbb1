// Shared machinery of the C++ explorers: job selection, counters, traces,
// violations, crash/hang capture, and the JSON report the runner reads.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sstream>
#include <stdexcept>
#include <unistd.h>
#include <sys/time.h>
#include <utility>
#include <vector>
#include <algorithm>
#include <limits>

namespace mc {

struct Options {
    std::string tier = "quick", out, job, part;
    long seed = 1;
    bool list = false;
};
inline Options & opt() { static Options o; return o; }
inline bool thorough() { return opt().tier == "thorough"; }

struct Counters {
    // progress is volatile: the watchdog's signal handler reads it
    volatile long long states = 0, transitions = 0, traces = 0, evals = 0;
};
inline Counters & count() { static Counters c; return c; }
inline void state(long long n = 1) { count().states = count().states + n; }
inline void transition(long long n = 1) { count().transitions = count().transitions + n; }
inline void eval(long long n = 1) { count().evals = count().evals + n; }

struct Violation { std::string key, detail; };
struct Store {
    std::vector<Violation> violations;
    std::map<std::string, long long> per_key;
    std::vector<std::string> samples;
    std::map<std::string, double> extra;
    std::vector<std::string> path;   // operations leading to the current state
    std::string context;             // model / configuration under exploration
};
inline Store & store() { static Store s; return s; }

inline std::string path_string() {
    std::string s = store().context + ": ";
    for (size_t i = 0; i < store().path.size(); ++i) s += (i ? " ; " : "") + store().path[i];
    return s;
}
inline void violation(const std::string & key, const std::string & detail) {
    auto & s = store();
    if (s.per_key[key]++ < 3) s.violations.push_back({key, detail + " || history: " + path_string()});
}
inline void sample(const std::string & text, size_t limit = 3) {
    if (store().samples.size() < limit) store().samples.push_back(text);
}
inline void extra(const std::string & k, double v) { store().extra[k] += v; }
inline void extra_max(const std::string & k, double v) {
    auto i = store().extra.find(k);
    if (i == store().extra.end() || i->second < v || std::isnan(v)) store().extra[k] = v;
}

// a finished history; the first few are kept as samples
inline void trace_done(long long n = 1) {
    count().traces = count().traces + n;
    if (store().samples.size() < 2) store().samples.push_back(path_string());
}

struct Step {  // RAII: one operation on the current path
    explicit Step(const std::string & s) { store().path.push_back(s); }
    ~Step() { store().path.pop_back(); }
    Step(const Step &) = delete;
};
struct Context {
    std::string old;
    explicit Context(const std::string & s) : old(store().context) { store().context = s; }
    ~Context() { store().context = old; }
};
// a harness may be compiled several times, each part with some of its jobs
#ifdef PART
#define IN_PART(n) (PART == (n))
#else
#define IN_PART(n) 1
#endif
#define MC_S(...) ([&] { std::ostringstream mc_s_; mc_s_.precision(9); mc_s_ << __VA_ARGS__; return mc_s_.str(); }())

inline std::string esc(const std::string & s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
inline void write_report(bool complete) {
    auto & s = store();
    std::string j = "{\"complete\": " + std::string(complete ? "true" : "false");
    auto num = [&](const char * k, long long v) { j += MC_S(", \"" << k << "\": " << v); };
    num("states", count().states); num("transitions", count().transitions);
    num("traces", count().traces); num("evals", count().evals);
    j += ", \"violations\": [";
    for (size_t i = 0; i < s.violations.size(); ++i)
        j += (i ? ", " : "") + ("{\"key\": \"" + esc(s.violations[i].key) + "\", \"detail\": \""
             + esc(s.violations[i].detail) + "\"}");
    j += "], \"violation_counts\": {";
    bool first = true;
    for (auto & p : s.per_key) { j += (first ? "" : ", ") + ("\"" + esc(p.first) + "\": " + std::to_string(p.second)); first = false; }
    j += "}, \"extra\": {";
    first = true;
    for (auto & p : s.extra) {
        double v = std::isfinite(p.second) ? p.second : 1e308;
        j += (first ? "" : ", ") + ("\"" + esc(p.first) + "\": " + MC_S(v)); first = false;
    }
    j += "}, \"samples\": [";
    for (size_t i = 0; i < s.samples.size(); ++i) j += (i ? ", " : "") + ("\"" + esc(s.samples[i]) + "\"");
    j += "]}\n";
    FILE * f = opt().out.empty() ? stdout : fopen(opt().out.c_str(), "w");
    if (!f) { perror("report"); _exit(4); }
    fwrite(j.data(), 1, j.size(), f);
    if (f != stdout) fclose(f); else fflush(f);
}

inline void crashed(const char * what) {
    static volatile int once = 0;
    if (once++) return;
    violation("crash", what);
    write_report(false);
}
inline void on_signal(int sig) {
    static char b[64];
    snprintf(b, sizeof b, "killed by signal %d", sig);
    crashed(b);
    _exit(3);
}
inline void on_alarm(int) {   // no operation finished between two alarms 90 s apart
    static long long last = -1;
    long long now = count().states + count().transitions + count().traces + count().evals;
    if (now == last) { crashed("no progress for 90 s: an operation does not return"); _exit(3); }
    last = now;
}

typedef std::vector<std::pair<std::string, std::function<void()>>> Jobs;

// the tier is known before main starts, for job lists that depend on it (glibc gives constructors the arguments)
__attribute__((constructor)) static void early_tier(int argc, char ** argv, char **) { for (int i = 1; i < argc; ++i) if (!strncmp(argv[i], "--tier=", 7)) opt().tier = argv[i] + 7; }
inline int main_(int argc, char ** argv, const Jobs & jobs) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&](const char * k) -> const char * {
            size_t n = strlen(k);
            return a.compare(0, n, k) == 0 ? a.c_str() + n : nullptr;
        };
        if (auto v = val("--tier=")) opt().tier = v;
        else if (auto v2 = val("--out=")) opt().out = v2;
        else if (auto v3 = val("--job=")) opt().job = v3;
        else if (auto v4 = val("--seed=")) opt().seed = atol(v4);
        else if (a == "--list") opt().list = true;
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    if (opt().list) { for (auto & j : jobs) printf("%s\n", j.first.c_str()); return 0; }
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, on_signal);
    signal(SIGALRM, on_alarm);
    itimerval t; t.it_interval.tv_sec = t.it_value.tv_sec = 90; t.it_interval.tv_usec = t.it_value.tv_usec = 0;
    setitimer(ITIMER_REAL, &t, nullptr);
    bool found = false;
    for (auto & j : jobs) {
        if (!opt().job.empty() && opt().job != j.first) continue;
        found = true;
        try {
            j.second();
        } catch (const std::exception & e) {
            violation("exception", std::string("uncaught: ") + e.what());
        }
    }
    if (!found) { fprintf(stderr, "no job %s\n", opt().job.c_str()); return 2; }
    write_report(true);
    return 0;
}

// Bit-level finiteness: std::isfinite is folded away under -ffast-math.
inline bool finite(float x) { uint32_t b; memcpy(&b, &x, 4); return (b & 0x7f800000u) != 0x7f800000u; }
inline bool finite(double x) { uint64_t b; memcpy(&b, &x, 8); return (b & 0x7ff0000000000000ull) != 0x7ff0000000000000ull; }
inline bool close(double x, double y, double abs_tol, double rel_tol = 0) {
    if (!finite(x) || !finite(y)) return false;
    double d = x - y; if (d < 0) d = -d;
    double m = std::max(x < 0 ? -x : x, y < 0 ? -y : y);
    return d <= abs_tol + rel_tol * m;
}

}  // namespace mc

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_on_error() { mc::crashed("AddressSanitizer error (see stderr)"); }
extern "C" const char * __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=3:handle_segv=0:handle_abort=0"; }
#endif
