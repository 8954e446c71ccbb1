// Runtime behind sched.hpp: scheduler, happens-before race detector, and the
// entry points the compiler's thread instrumentation calls.
#include "sched.hpp"

#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <execinfo.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>
#include <new>

namespace sched {
static const int MAXT = 4;
static const size_t MAXPOINT = 1 << 20, MAXRESULT = 1 << 14;
struct Choice { uint8_t options, free_switch, taken, pad; uint32_t at; };
struct Shared {     // written by the process that runs one schedule
    char problem[2000];
    long points, accesses, sync;
    int n[MAXT];
    float results[MAXT][MAXRESULT];
    Choice choice[MAXPOINT];
};
static Shared * sh;

typedef uint32_t Clock;
struct VC { Clock c[MAXT]; };
static void join(VC & a, const VC & b) { for (int i = 0; i < MAXT; ++i) if (a.c[i] < b.c[i]) a.c[i] = b.c[i]; }

struct Thread {
    std::function<std::vector<float>()> body;
    pthread_t pt; sem_t go;
    bool done = false; const void * blocked = nullptr;
    VC vc; long idle = 0;
};
static Thread threads[MAXT];
static int nthreads = 0, current = -1;
static bool running = false;                // schedules are being controlled
static thread_local int me = -1;            // controlled thread, or -1
static thread_local int inside = 0;         // in the runtime itself
static const std::vector<uint8_t> * prefix;
static int access_every = 0; static long access_count = 0;
static sem_t all_done;
static uintptr_t stack_lo[MAXT], stack_hi[MAXT];

struct Guard { Guard() { ++inside; } ~Guard() { --inside; } };
static inline bool active() { return running && me >= 0 && !inside; }

static std::string where(void * pc) {
    char b[300]; Dl_info d;
    if (dladdr(pc, &d) && d.dli_sname) snprintf(b, sizeof b, "%s", d.dli_sname);
    else snprintf(b, sizeof b, "%p", pc);
    return b;
}
static void finish_process(int code) { _exit(code); }
static void problem(const std::string & text) {
    snprintf(sh->problem, sizeof sh->problem, "%s", text.c_str());
    finish_process(0);
}

// ---- shadow memory: one cell per byte -------------------------------------
struct Cell { uintptr_t addr; Clock w[MAXT], r[MAXT]; };
static Cell * cells; static size_t cells_mask, cells_used;
static void shadow_init() {
    size_t n = 1 << 11;
    cells = (Cell *)mmap(nullptr, n * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    cells_mask = n - 1; cells_used = 0;
}
static Cell * find(uintptr_t a, bool create) {
    size_t i = (a * 0x9E3779B97F4A7C15ull >> 20) & cells_mask;
    while (cells[i].addr && cells[i].addr != a) i = (i + 1) & cells_mask;
    if (cells[i].addr) return &cells[i];
    if (!create) return nullptr;
    if (++cells_used * 2 > cells_mask) {
        Cell * old = cells; size_t on = cells_mask + 1, n = on * 4;
        cells = (Cell *)mmap(nullptr, n * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        cells_mask = n - 1;
        for (size_t k = 0; k < on; ++k) if (old[k].addr) {
            size_t j = (old[k].addr * 0x9E3779B97F4A7C15ull >> 20) & cells_mask;
            while (cells[j].addr) j = (j + 1) & cells_mask;
            cells[j] = old[k];
        }
        munmap(old, on * sizeof(Cell));
        i = (a * 0x9E3779B97F4A7C15ull >> 20) & cells_mask;
        while (cells[i].addr) i = (i + 1) & cells_mask;
    }
    cells[i].addr = a;
    return &cells[i];
}
static void race(uintptr_t a, bool write, int other, bool other_wrote, void * pc) {
    char b[200];
    snprintf(b, sizeof b, "data race: thread %d %s memory that thread %d %s, unordered, in ", me, write ? "writes" : "reads", other, other_wrote ? "writes" : "reads");
    problem(b + where(pc));
}
static void touch(uintptr_t a, size_t n, bool write, void * pc) {
    Thread & t = threads[me];
    for (size_t k = 0; k < n; ++k) {
        Cell * c = find(a + k, true);
        for (int u = 0; u < nthreads; ++u) if (u != me) {
            if (c->w[u] > t.vc.c[u]) race(a + k, write, u, true, pc);
            if (write && c->r[u] > t.vc.c[u]) race(a + k, write, u, false, pc);
        }
        (write ? c->w : c->r)[me] = t.vc.c[me];
    }
}
static void forget(uintptr_t a, size_t n) {
    for (size_t k = 0; k < n; ++k) if (Cell * c = find(a + k, false)) { memset(c->w, 0, sizeof c->w); memset(c->r, 0, sizeof c->r); }
}

// ---- scheduling ------------------------------------------------------------
static void switch_to(int to) {
    if (to == me) return;
    current = to;
    sem_post(&threads[to].go);
}
static void wait_turn() { while (current != me) while (sem_wait(&threads[me].go) && errno == EINTR) {} }
// Chooses who goes on.  free_switch: leaving the current thread costs nothing
// (it cannot go on, or asked to yield).
static int choose(bool can_go_on, bool free_switch) {
    int opts[MAXT], n = 0;
    if (can_go_on && !free_switch) opts[n++] = me;
    for (int i = 0; i < nthreads; ++i) if (i != me && !threads[i].done && !threads[i].blocked) opts[n++] = i;
    if (can_go_on && free_switch) opts[n++] = me;
    if (!n) return -1;
    int k = 0;
    if (n > 1) {
        long p = sh->points++;
        if (p >= (long)MAXPOINT) problem("too many scheduling points");
        if (p < (long)prefix->size()) k = (*prefix)[p];
        if (k >= n) problem("the program is not deterministic: a recorded schedule cannot be replayed");
        sh->choice[p].options = n; sh->choice[p].free_switch = !can_go_on || free_switch; sh->choice[p].taken = k; sh->choice[p].at = sh->accesses;
    }
    return opts[k];
}
static void point(bool yield = false, int weight = 100) {
    if ((threads[me].idle += weight) > 20000) yield = true;        // waits for something another thread has to do
    int to = choose(true, yield);
    if (to != me) { threads[me].idle = 0; switch_to(to); wait_turn(); }
}
static void block_on(const void * what) {
    threads[me].blocked = what;
    int to = choose(false, true);
    if (to < 0) problem("deadlock: no thread can go on");
    switch_to(to);
    wait_turn();
    threads[me].idle = 0;
}
static void wake(const void * what) { for (int i = 0; i < nthreads; ++i) if (threads[i].blocked == what) threads[i].blocked = nullptr; }

// ---- synchronisation objects ----------------------------------------------
struct Sync { int owner = -1; int depth = 0; int readers = 0; VC vc{}; int stage = 0; };
static std::map<const void *, Sync> * syncs;
static Sync & sync_of(const void * p) { return (*syncs)[p]; }
static void acquire(Sync & s) { join(threads[me].vc, s.vc); }
static void release(Sync & s) { join(s.vc, threads[me].vc); ++threads[me].vc.c[me]; }
static void lock(const void * m, bool recursive) {
    ++sh->sync;
    point();
    for (;;) {
        Sync & s = sync_of(m);
        if (s.owner == me && recursive) { ++s.depth; return; }
        if (s.owner == me) problem("deadlock: a thread locks a mutex it holds");
        if (s.owner < 0 && !s.readers) { s.owner = me; s.depth = 1; acquire(s); return; }
        block_on(m);
    }
}
static bool try_lock(const void * m) {
    ++sh->sync;
    point();
    Sync & s = sync_of(m);
    if (s.owner >= 0 || s.readers) return false;
    s.owner = me; s.depth = 1; acquire(s);
    return true;
}
static void read_lock(const void * m) {
    ++sh->sync;
    point();
    for (;;) {
        Sync & s = sync_of(m);
        if (s.owner < 0) { ++s.readers; acquire(s); return; }
        block_on(m);
    }
}
static void unlock(const void * m) {
    ++sh->sync;
    Sync & s = sync_of(m);
    if (s.owner == me) { if (--s.depth) return; s.owner = -1; }
    else if (s.readers) --s.readers;
    else problem("unlocks a mutex it does not hold");
    release(s);
    wake(m);
    point();
}

static void * thread_main(void * p) {
    int id = (int)(intptr_t)p;
    { Guard g; me = id; wait_turn(); }
    std::vector<float> r;
    try { r = threads[id].body(); }
    catch (const std::exception & e) { Guard g; problem(std::string("exception: ") + e.what()); }
    Guard g;
    if (r.size() > MAXRESULT) problem("too many results");
    sh->n[id] = r.size();
    if (!r.empty()) memcpy(sh->results[id], r.data(), r.size() * sizeof(float));
    threads[id].done = true;
    bool left = false;
    for (int i = 0; i < nthreads; ++i) left = left || !threads[i].done;
    if (!left) { sem_post(&all_done); pause(); }
    int to = choose(false, true);
    if (to < 0) problem("deadlock: no thread can go on");
    switch_to(to);
    for (;;) pause();
}
static void child(const Program & p, const std::vector<uint8_t> & pre, int every) {
    signal(SIGALRM, SIG_DFL);
    alarm(60);
    if (p.before) p.before();
    shadow_init();
    syncs = new std::map<const void *, Sync>;
    prefix = &pre; access_every = every; access_count = 0;
    nthreads = p.threads.size();
    sem_init(&all_done, 0, 0);
    current = -1;
    for (int i = 0; i < nthreads; ++i) {
        threads[i].body = p.threads[i];
        memset(&threads[i].vc, 0, sizeof(VC));
        threads[i].vc.c[i] = 1;
        sem_init(&threads[i].go, 0, 0);
        pthread_attr_t a; pthread_attr_init(&a);
        const size_t size = 1 << 20;
        char * s = (char *)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        stack_lo[i] = (uintptr_t)s; stack_hi[i] = stack_lo[i] + size;
        pthread_attr_setstack(&a, s, size);
        if (pthread_create(&threads[i].pt, &a, thread_main, (void *)(intptr_t)i)) { snprintf(sh->problem, 100, "cannot start a thread"); finish_process(9); }
    }
    running = true;
    // the first thread is a choice too
    int first = 0;
    if (nthreads > 1) {
        first = pre.empty() ? 0 : pre[0];
        Choice & c = sh->choice[sh->points++];
        c.options = nthreads; c.free_switch = 1; c.taken = first; c.at = 0;
    }
    current = first;
    sem_post(&threads[first].go);
    while (sem_wait(&all_done) && errno == EINTR) {}
    finish_process(0);
}
static Outcome run(const Program & p, const std::vector<uint8_t> & pre, int every) {
    if (!sh) sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->problem[0] = 0; sh->points = sh->accesses = sh->sync = 0;
    memset(sh->n, 0, sizeof sh->n);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (!pid) { child(p, pre, every); _exit(9); }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.problem = sh->problem;
    if (st && o.problem.empty()) {
        char b[100];
        if (WIFSIGNALED(st)) snprintf(b, sizeof b, WTERMSIG(st) == SIGALRM ? "no end within 60 s" : "killed by signal %d", WTERMSIG(st));
        else snprintf(b, sizeof b, "ended with status %d", WEXITSTATUS(st));
        o.problem = b;
    }
    for (size_t i = 0; i < p.threads.size(); ++i) o.results.push_back(std::vector<float>(sh->results[i], sh->results[i] + sh->n[i]));
    return o;
}
Outcome alone(const std::function<void()> & before, const std::function<std::vector<float>()> & thread) {
    Program p; p.before = before; p.threads.push_back(thread);
    return run(p, {}, 0);
}
Stats explore(const Program & p, const Limits & lim, const std::function<bool(const Outcome &, const std::string &)> & sees) {
    Stats st;
    st.bound = lim.preemptions;
    std::vector<uint8_t> pre;
    for (;;) {
        Outcome o = run(p, pre, lim.access_every);
        ++st.schedules; st.points += sh->points; st.accesses += sh->accesses; st.sync += sh->sync;
        std::vector<Choice> c(sh->choice, sh->choice + sh->points);
        std::string text = "switches:";
        for (size_t i = 0; i < c.size(); ++i) if (c[i].taken) text += " #" + std::to_string(i) + "(after " + std::to_string(c[i].at) + " accesses)->" + std::to_string(c[i].taken);
        if (!sees(o, text)) { st.complete = false; st.stopped = true; return st; }
        std::vector<int> used(c.size() + 1, 0);
        for (size_t i = 0; i < c.size(); ++i) used[i + 1] = used[i] + (c[i].taken && !c[i].free_switch);
        long i = (long)c.size() - 1;
        for (; i >= 0; --i) if (c[i].taken + 1 < c[i].options && (lim.preemptions < 0 || used[i] + !c[i].free_switch <= lim.preemptions)) break;
        if (i < 0) return st;
        if (st.schedules >= lim.max_schedules) { st.complete = false; return st; }
        pre.clear();
        for (long k = 0; k < i; ++k) pre.push_back(c[k].taken);
        pre.push_back(c[i].taken + 1);
    }
}

Stats explore_all(const Program & p, int access_every, long most, const std::function<bool(const Outcome &, const std::string &)> & sees) {
    static const time_t start = time(nullptr);
    const char * tier = getenv("VERIF_TIER");
    if (time(nullptr) - start > (tier && !strcmp(tier, "thorough") ? 600 : 60)) most = most / 20 + 50;
    Stats st, total;
    for (int bound : {-1, 2, 1}) {
        if (access_every && bound != 1) continue;
        Limits l = {bound, access_every, most};
        st = explore(p, l, sees);
        total.schedules += st.schedules; total.points += st.points; total.accesses += st.accesses; total.sync += st.sync;
        total.complete = st.complete; total.bound = bound; total.stopped = st.stopped;
        if (st.complete || st.stopped) break;
    }
    return total;
}

// ---- accesses --------------------------------------------------------------
static inline void access(const void * p, size_t n, bool write, void * pc) {
    if (__builtin_expect(!active(), 1) || !n) return;
    Guard g;
    uintptr_t a = (uintptr_t)p;
    ++sh->accesses;
    const bool own_stack = a >= stack_lo[me] && a < stack_hi[me];
    if (own_stack) return;
    if (access_every && ++access_count % access_every == 0) point(false, 1);
    touch(a, n, write, pc);
}
template<class F> static F real(const char * name) { Guard g; return (F)dlsym(RTLD_NEXT, name); }
}  // namespace sched

using namespace sched;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void * a) { access(a, N, false, PC); } void __tsan_write##N(void * a) { access(a, N, true, PC); } \
    void __tsan_unaligned_read##N(void * a) { access(a, N, false, PC); } void __tsan_unaligned_write##N(void * a) { access(a, N, true, PC); } \
    void __tsan_volatile_read##N(void * a) { access(a, N, false, PC); } void __tsan_volatile_write##N(void * a) { access(a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * a, size_t n) { access(a, n, false, PC); }
void __tsan_write_range(void * a, size_t n) { access(a, n, true, PC); }
void __tsan_vptr_update(void * a, void *) { access(a, sizeof(void *), true, PC); }
void __tsan_vptr_read(void * a) { access(a, sizeof(void *), false, PC); }

// atomics: one step each, ordered by the synchronisation they ask for
static void before_atomic() { ++sh->sync; point(); }
static bool acq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
static bool rel(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME; }
static void order(const volatile void * a, int mo, bool reads, bool writes) {
    Sync & s = sync_of((const void *)a);
    if (reads && acq(mo)) acquire(s);
    if (writes && rel(mo)) release(s);
}
#define ATOMIC(N, T) \
    T __tsan_atomic##N##_load(const volatile T * a, int mo) { if (!active()) return __atomic_load_n(a, __ATOMIC_SEQ_CST); Guard g; before_atomic(); order(a, mo, true, false); return *a; } \
    void __tsan_atomic##N##_store(volatile T * a, T v, int mo) { if (!active()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } Guard g; before_atomic(); order(a, mo, false, true); *a = v; } \
    T __tsan_atomic##N##_exchange(volatile T * a, T v, int mo) { if (!active()) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); Guard g; before_atomic(); order(a, mo, true, true); T o = *a; *a = v; return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T * a, T v, int mo) { if (!active()) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); Guard g; before_atomic(); order(a, mo, true, true); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T * a, T v, int mo) { if (!active()) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); Guard g; before_atomic(); order(a, mo, true, true); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T * a, T v, int mo) { if (!active()) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); Guard g; before_atomic(); order(a, mo, true, true); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T * a, T v, int mo) { if (!active()) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); Guard g; before_atomic(); order(a, mo, true, true); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T * a, T v, int mo) { if (!active()) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); Guard g; before_atomic(); order(a, mo, true, true); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T * a, T v, int mo) { if (!active()) return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); Guard g; before_atomic(); order(a, mo, true, true); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T * a, T * c, T v, int mo, int fmo) { if (!active()) return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); Guard g; before_atomic(); \
        if (*a == *c) { order(a, mo, true, true); *a = v; return 1; } order(a, fmo, true, false); *c = *a; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T * a, T * c, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T * a, T c, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
static char fence_object;
void __tsan_atomic_thread_fence(int mo) { if (!active()) return; Guard g; ++sh->sync; order(&fence_object, mo, true, true); }
void __tsan_atomic_signal_fence(int) {}

// the C library's block functions, in the instrumented objects
void * __real_memcpy(void *, const void *, size_t);
void * __real_memmove(void *, const void *, size_t);
void * __real_memset(void *, int, size_t);
void * __wrap_memcpy(void * d, const void * s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
void * __wrap_memmove(void * d, const void * s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
void * __wrap_memset(void * d, int c, size_t n) { access(d, n, true, PC); return __real_memset(d, c, n); }

// memory: giving a block back writes it, and ends its history
static void gone(void * p, void * pc);
void __real_free(void *);
void __wrap_free(void * p) { gone(p, PC); __real_free(p); }
}
#include <malloc.h>
static void gone(void * p, void * pc) {
    if (!p || !active()) return;
    Guard g;
    size_t n = malloc_usable_size(p);
    touch((uintptr_t)p, n, true, pc);
    forget((uintptr_t)p, n);
}
void * operator new(size_t n) { void * p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n) { return operator new(n); }
void operator delete(void * p) noexcept { gone(p, PC); __real_free(p); }
void operator delete[](void * p) noexcept { gone(p, PC); __real_free(p); }
void operator delete(void * p, size_t) noexcept { gone(p, PC); __real_free(p); }
void operator delete[](void * p, size_t) noexcept { gone(p, PC); __real_free(p); }

extern "C" {
#define REAL(name) static decltype(&name) f; if (!f) f = real<decltype(&name)>(#name)
static bool recursive(pthread_mutex_t * m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t * m) { if (active()) { Guard g; lock(m, recursive(m)); return 0; } REAL(pthread_mutex_lock); return f(m); }
int pthread_mutex_trylock(pthread_mutex_t * m) { if (active()) { Guard g; return try_lock(m) ? 0 : EBUSY; } REAL(pthread_mutex_trylock); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t * m) { if (active()) { Guard g; unlock(m); return 0; } REAL(pthread_mutex_unlock); return f(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t * m) { if (active()) { Guard g; read_lock(m); return 0; } REAL(pthread_rwlock_rdlock); return f(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t * m) { if (active()) { Guard g; lock(m, false); return 0; } REAL(pthread_rwlock_wrlock); return f(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t * m) { if (active()) { Guard g; return try_lock(m) ? 0 : EBUSY; } REAL(pthread_rwlock_trywrlock); return f(m); }
int pthread_rwlock_unlock(pthread_rwlock_t * m) { if (active()) { Guard g; unlock(m); return 0; } REAL(pthread_rwlock_unlock); return f(m); }
int pthread_spin_lock(pthread_spinlock_t * m) { if (active()) { Guard g; lock((void *)m, false); return 0; } REAL(pthread_spin_lock); return f(m); }
int pthread_spin_unlock(pthread_spinlock_t * m) { if (active()) { Guard g; unlock((void *)m); return 0; } REAL(pthread_spin_unlock); return f(m); }
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) {
    if (!active()) { REAL(pthread_cond_wait); return f(c, m); }
    Guard g;
    Sync & s = sync_of(m);
    s.owner = -1; release(s); wake(m);
    block_on(c);
    acquire(sync_of(c));
    lock(m, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c) { if (active()) { Guard g; ++sh->sync; release(sync_of(c)); wake(c); point(); return 0; } REAL(pthread_cond_broadcast); return f(c); }
int pthread_cond_signal(pthread_cond_t * c) { if (active()) { Guard g; ++sh->sync; release(sync_of(c)); wake(c); point(); return 0; } REAL(pthread_cond_signal); return f(c); }
int pthread_once(pthread_once_t * o, void (*init)(void)) {
    if (!active()) { REAL(pthread_once); return f(o, init); }
    if (*o == 2) { Guard g; acquire(sync_of(o)); return 0; }     // done, perhaps before the threads started
    {
        Guard g;
        ++sh->sync; point();
        while (sync_of(o).stage == 1) block_on(o);
        Sync & s = sync_of(o);
        if (s.stage == 2 || *o == 2) { acquire(s); return 0; }
        s.stage = 1;
    }
    try { init(); } catch (...) { Guard g; sync_of(o).stage = 0; release(sync_of(o)); wake(o); throw; }
    Guard g;
    sync_of(o).stage = 2; *o = 2; release(sync_of(o)); wake(o);
    point();
    return 0;
}
int sched_yield() { if (active()) { Guard g; ++sh->sync; point(true); return 0; } REAL(sched_yield); return f(); }

// guards of function-local statics
struct GuardObject { char done, busy; };
#define O GuardObject * o = (GuardObject *)go
int __cxa_guard_acquire(long long * go) {
    O;
    if (!active()) { if (o->done) return 0; o->busy = 1; return 1; }
    Guard g;
    ++sh->sync; point();
    for (;;) {
        if (__atomic_load_n(&o->done, __ATOMIC_ACQUIRE)) { acquire(sync_of(o)); return 0; }
        if (!o->busy) { o->busy = 1; return 1; }
        block_on(o);
    }
}
void __cxa_guard_release(long long * go) {
    O;
    if (!active()) { o->busy = 0; o->done = 1; return; }
    Guard g;
    o->busy = 0; o->done = 1; release(sync_of(o)); wake(o); point();
}
void __cxa_guard_abort(long long * go) { O; o->busy = 0; if (!active()) return; Guard g; release(sync_of(o)); wake(o); }
}
