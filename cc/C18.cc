// C18: rows of log Stirling numbers, alone and under every schedule.
#include "mc.hpp"
#include "sched.hpp"
#include <cstring>
#include <distributions/special.hpp>
#include <distributions/vector.hpp>
using namespace mc;
using std::vector;
using namespace distributions;
typedef vector<int> Sizes;
static std::string list(const Sizes & s) { std::string t; for (int x : s) t += (t.empty() ? "" : ",") + std::to_string(x); return t; }
static vector<float> rows(const Sizes & ns) {
    vector<float> out;
    for (int n : ns) {
        vector<float> row(3, 7.f);
        get_log_stirling1_row(n, row);
        out.push_back(row.size());
        out.insert(out.end(), row.begin(), row.end());
    }
    return out;
}
static void together(const vector<Sizes> & asks, int warm, int every, long most) {
    std::string name = "cache of " + std::to_string(warm) + " rows, threads ask for";
    for (auto & a : asks) name += " {" + list(a) + "}";
    if (every) name += MC_S(", stopped at every " << every << ". access");
    Context c(name);
    state();
    sched::Program p;
    if (warm) p.before = [=] { rows({warm - 1}); };
    vector<vector<float>> expected;
    for (auto & a : asks) {
        p.threads.push_back([=] { return rows(a); });
        auto o = sched::alone(nullptr, p.threads.back());
        if (!o.problem.empty()) { violation("alone", "a single thread: " + o.problem); return; }
        expected.push_back(o.results[0]);
    }
    auto st = sched::explore_all(p, every, most, [&](const sched::Outcome & o, const std::string & schedule) {
        transition(); eval();
        if (!o.problem.empty()) { violation(o.problem.substr(0, 9), o.problem + "; " + schedule); return false; }
        for (size_t i = 0; i < asks.size(); ++i)
            if (o.results[i].size() != expected[i].size() || memcmp(o.results[i].data(), expected[i].data(), 4 * expected[i].size())) { violation("rows", MC_S("thread " << i << " gets other rows than alone; " << schedule)); return false; }
        return true;
    });
    trace_done(st.schedules);
    extra("schedules", st.schedules); extra("scheduling_points", st.points); extra("memory_accesses_checked", st.accesses); extra("synchronisations", st.sync);
    extra(st.bound < 0 ? "programs_with_every_interleaving" : MC_S("programs_with_preemption_bound_" << st.bound), 1);
    if (!st.complete && !st.stopped) extra("programs_not_completed", 1);
}
static void job_sync(int part) {      // every interleaving of the lock operations
    vector<Sizes> one = {{0}, {1}, {2}, {5}, {31}, {32}, {40}}, pair = {{1, 5}, {5, 2}, {31, 31}, {32, 3}, {0, 31}};
    const long most = thorough() ? 500000 : 800;
    int k = 0;
    for (int warm : {0, 4, 32}) {
        for (auto & a : one) for (auto & b : one) if (k++ % 4 == part) together({a, b}, warm, 0, most);
        for (auto & a : pair) for (auto & b : pair) if (k++ % 4 == part) together({a, b}, warm, 0, most);
        for (auto & a : one) for (auto & b : one) for (auto & c : one) if (a <= b && b <= c && (thorough() || warm == 0) && k++ % 4 == part) together({a, b, c}, warm, 0, most);
    }
    if (part == 0) together({{31}, {5, 31}, {2, 30}}, 0, 0, most);
    if (part == 1 && thorough()) together({{4, 31}, {5, 31}, {2, 30}}, 0, 0, most);
    if (part == 2) together({{9}, {31}, {2}, {20}}, 0, 0, most);
}
static void job_access(int part) {    // one thread stopped at every single memory access
    const long most = thorough() ? 200000 : 5000;
    const int some = thorough() ? 1 : 7;
    int k = 0;
    for (int warm : {0, 3}) for (auto & a : vector<Sizes>{{1}, {3}, {5}}) for (auto & b : vector<Sizes>{{2}, {5}, {33}}) if (k++ % 4 == part) together({a, b}, warm, 1, most);
    if (part == 1) together({{12}, {12}}, 0, some, most);
    if (part == 2) together({{31}, {4}}, 30, some, most);
    if (part == 3) together({{2}, {3}, {1}}, 0, some, most);
}

// values: recurrence in double precision; above 31 the documented approximation
static bool minus_inf(float x) { uint32_t b; memcpy(&b, &x, 4); return b == 0xff800000u; }   // -ffast-math folds comparisons away
static double softmin(double n, double a, double b) { double s = n / 3, x = -a / s, y = -b / s, m = std::max(x, y); return -s * (m + log1p(exp(std::min(x, y) - m))); }
static void job_values() {
    const int all = thorough() ? 6000 : 1500, max = thorough() ? 20000 : 9000;   // every row, then the rows about powers of two and every 97th
    vector<double> exact(1, 0), prev;      // row 0
    const double euler = 0.57721566490153286060651209;
    for (int n = 0; n <= max; ++n) {
        if (n) {
            prev = exact; exact.assign(n + 1, -INFINITY); exact[n] = 0;
            for (int k = 1; k < n; ++k) { double x = log(n - 1.0) + prev[k], y = prev[k - 1], m = std::max(x, y); exact[k] = m + log1p(exp(std::min(x, y) - m)); }
        }
        if (n > all && n % 97 && ((n - 1) & n) > 0 && (n & (n + 1)) && (n % 1000)) continue;
        state(); transition();
        vector<float> row = n % 2 ? vector<float>(n + 1 + 5, 3.f) : vector<float>();
        get_log_stirling1_row(n, row);
        auto other = log_stirling1_row(n);
        VectorFloat aligned; get_log_stirling1_row(n, aligned);
        Step st(MC_S("row " << n));
        if (row.size() != size_t(n + 1)) { violation("size", MC_S("row of " << row.size() << " entries")); continue; }
        if (memcmp(row.data(), other.data(), 4 * row.size()) || memcmp(row.data(), aligned.data(), 4 * row.size())) violation("overloads", "the three ways to ask for a row differ");
        for (int k = 0; k <= n; ++k) {
            eval();
            const double x = row[k];
            if (k == n ? x != 0 : k == 0 ? !minus_inf(row[0]) : !finite(row[k])) { violation("ends", MC_S("entry " << k << " is " << x)); continue; }
            if (k == 0 || k == n) continue;
            if (n < 32) { if (!close(x, exact[k], 2e-5, 2e-6)) violation("exact", MC_S("entry " << k << " is " << x << ", exactly " << exact[k])); extra_max("max_error_exact_rows", fabs(x - exact[k])); continue; }
            const double a1 = lgamma(n) - lgamma(k) + (k - 1) * log(euler + log(n - 1.0)), a2 = (n - k) * log(0.5 * n * n) - lgamma(n - k + 1.0);
            const double doc = softmin(n, a1, a2), tol = 2e-3 + 2e-5 * (fabs(a1) + fabs(a2));
            extra_max("max_error_to_documented_approximation_relative", fabs(x - doc) / (1 + fabs(a1) + fabs(a2)));
            // nearer to the truth than the documented approximation is fine too
            if (!close(x, doc, tol) && !(fabs(x - exact[k]) <= fabs(doc - exact[k]) + tol)) violation("approximation", MC_S("entry " << k << " is " << x << ", documented approximation " << doc << ", exactly " << exact[k]));
            extra_max("max_error_to_exact_relative", fabs(x - exact[k]) / (1 + exact[k]));
        }
        // only slopes are used: they stay within the accuracy the project asks for
        if (n >= 32) for (int k = 1; k < n && n <= 128; ++k) { eval(); if (!close(row[k + 1] - row[k], exact[k + 1] - exact[k], 0.5, 0.5)) violation("slope", MC_S("slope at " << k)); }
    }
    trace_done();
}
int main(int argc, char ** argv) {
    Jobs jobs;
#ifdef SCHEDULES
    for (int i = 0; i < 4; ++i) { jobs.push_back({MC_S("access/" << i), [=] { job_access(i); }}); jobs.push_back({MC_S("sync/" << i), [=] { job_sync(i); }}); }
#else
    jobs.push_back({"values", job_values});
#endif
    return main_(argc, argv, jobs);
}
