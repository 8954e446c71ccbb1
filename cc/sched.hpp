// Controlled threads over the real code.  The code under test is compiled with
// -fsanitize=thread but linked with the runtime of sched_rt.cc, which sees
// every memory access, lock, once-flag, guard and atomic of the threads, runs
// one thread at a time, and enumerates the schedules.
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace sched {
struct Program {
    std::function<void()> before;                       // before the threads start
    std::vector<std::function<std::vector<float>()>> threads;
};
struct Limits {
    int preemptions;        // -1: no bound
    int access_every;       // 0: switch at synchronisation only; k: also at every k-th access to non-stack memory
    long max_schedules;
};
struct Outcome {
    std::string problem;            // empty: fine.  Race, deadlock, crash, exception
    std::vector<std::vector<float>> results;
};
struct Stats { long schedules = 0, points = 0, accesses = 0, sync = 0; bool complete = true; int bound = 0; bool stopped = false; };
// Runs every schedule within the limits; sees(outcome, schedule) is called after
// each and returns false to stop.
Stats explore(const Program &, const Limits &, const std::function<bool(const Outcome &, const std::string &)> & sees);
// Every interleaving if there are no more than most of them, otherwise all with
// two preemptions, otherwise all with one, otherwise the first most of these.
// After a minute (ten in the thorough tier) of one job, programs get fewer.
Stats explore_all(const Program &, int access_every, long most, const std::function<bool(const Outcome &, const std::string &)> & sees);
// One thread alone, in a process of its own.
Outcome alone(const std::function<void()> & before, const std::function<std::vector<float>()> & thread);
}
