// A cooperative scheduler for the tsan variant. One thread runs at a time; where the running thread may change is decided by
// a plan generated before the threads start, so an interleaving can be replayed and shrunk. The hand-over between threads is
// invisible to ThreadSanitizer (no instrumentation, raw futex calls), so it still reports every pair of accesses that
// the code under test itself does not order.
#pragma once
#include "sec.hpp"
#include <functional>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <thread>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#define RAW __attribute__((disable_sanitizer_instrumentation, noinline))
namespace sched {
enum { MAXT = 6, MAXPLAN = 64 };
enum State { IDLE, READY, BLOCKED, DONE };
struct Thr {
    volatile int state;
    volatile int go;
    void* volatile waits;
};
static Thr thr[MAXT + 1];          // the last one is the main thread
static volatile int nthr, cur;
static volatile bool on;
static volatile bool locks_only;   // count locks instead of basic blocks
static volatile uint64_t clock_, step_, next_at, spins, switches, blocks_seen;
static uint32_t gap[MAXPLAN];
static uint8_t target[MAXPLAN];
static volatile int plan_n, plan_i;
static thread_local int self = -1;
static thread_local int nopreempt = 0;

RAW static void futex(volatile int* p, int op, int v) {
    register long r10 __asm__("r10") = 0;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_futex), "D"(p), "S"(op), "d"(v), "r"(r10) : "rcx", "r11", "memory");
}
RAW static void park(int t) {
    while (!thr[t].go) futex(&thr[t].go, FUTEX_WAIT_PRIVATE, 0);
    thr[t].go = 0;
    __asm__ volatile("mfence" ::: "memory");
}
RAW static void wake(int t) {
    __asm__ volatile("mfence" ::: "memory");
    thr[t].go = 1;
    futex(&thr[t].go, FUTEX_WAKE_PRIVATE, 1);
}
RAW static void die(const char* what) {
    size_t n = 0;
    while (what[n]) n++;
    if (write(2, what, n)) {}
    _exit(77);
}
RAW static void arm() {   // when the next planned switch is due
    if (plan_i < plan_n) next_at = step_ + gap[plan_i];
    else next_at = UINT64_MAX;
}
RAW static int ready_after(int t) {
    for (int i = 1; i <= nthr; i++) {
        int k = (t + i) % nthr;
        if (thr[k].state == READY && k != t) return k;
    }
    return -1;
}
RAW static void hand(int from, int to) {
    if (to == from) return;
    switches = switches + 1;
    cur = to;
    wake(to);
    park(from);
}
// Called by the running thread wherever another one may take over.
RAW static void point(bool lock) {
    if (!on || self < 0 || nopreempt) return;
    if (cur != self) die("SCHEDULER: two threads run\n");
    if (locks_only && !lock) return;
    step_ = step_ + 1;
    if (step_ < next_at) return;
    if (sec::in_openssl_alloc()) return;
    int want = plan_i < plan_n ? target[plan_i] : 0;
    plan_i = plan_i + 1;
    arm();
    int n = 0;
    for (int i = 0; i < nthr; i++) n += thr[i].state == READY && i != self;
    if (n == 0) return;
    want %= n;
    for (int i = 0; i < nthr; i++)
        if (thr[i].state == READY && i != self && want-- == 0) {
            hand(self, i);
            return;
        }
}
RAW static void yield_() {   // the running thread waits for the others to make progress
    if (!on || self < 0) return;
    spins = spins + 1;
    if (spins > 20000) die("LIVELOCK: a call waits for something that never happens\n");
    int k = ready_after(self);
    if (k >= 0) hand(self, k);
}
RAW static void block(void* m) {
    blocks_seen = blocks_seen + 1;
    thr[self].waits = m;
    thr[self].state = BLOCKED;
    int k = ready_after(self);
    if (k < 0) die("DEADLOCK: every thread waits for a lock another one holds\n");
    hand(self, k);
}
RAW static void unblock(void* m) {
    for (int i = 0; i < nthr; i++)
        if (thr[i].state == BLOCKED && thr[i].waits == m) thr[i].state = READY;
}
RAW static void finish() {
    thr[self].state = DONE;
    int k = ready_after(self);
    if (k < 0) {
        for (int i = 0; i < nthr; i++)
            if (thr[i].state == BLOCKED) die("DEADLOCK: a thread ended holding a lock another one waits for\n");
        cur = MAXT;
        wake(MAXT);
        return;
    }
    cur = k;
    wake(k);
}
RAW static uint64_t tick() { clock_ = clock_ + 1; return clock_; }
RAW static void enter(int id) {
    self = id;
    park(id);
}
RAW static void setup(int n, bool lo) {
    nthr = n;
    locks_only = lo;
    step_ = 0;
    spins = 0;
    switches = 0;
    blocks_seen = 0;
    plan_i = 0;
    arm();
    for (int i = 0; i < n; i++) {
        thr[i].state = READY;
        thr[i].go = 0;
    }
    thr[MAXT].go = 0;
}
RAW static void go(int first) {
    on = true;
    cur = first;
    wake(first);
    park(MAXT);
    on = false;
}
// Runs the bodies under the plan drawn from src.
inline void run(pbt::Src& src, const std::vector<std::function<void()>>& body) {
    int n = (int) body.size();
    bool lo = src.coin();
    plan_n = (int) src.below(lo ? 24 : 40);
    unsigned scale = (unsigned) src.below(3);
    for (int i = 0; i < plan_n; i++) {
        gap[i] = 1 + (uint32_t) (lo ? src.below(12) : src.below(scale == 0 ? 60 : scale == 1 ? 600 : 3000));
        target[i] = (uint8_t) src.below(4);
    }
    int first = (int) src.below(n);
    setup(n, lo);
    std::vector<std::thread> t;
    for (int i = 0; i < n; i++)
        t.emplace_back([i, &body] {
            enter(i);
            body[i]();
            OPENSSL_thread_stop();
            finish();
        });
    go(first);
    for (auto& x : t) x.join();
}
}  // namespace sched

extern "C" {
RAW void __sanitizer_cov_trace_pc_guard(uint32_t*) { sched::point(false); }
RAW void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
// The library's mtx_* and call_once (reference/include/threads.h) are inline functions over these.
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!sched::on || sched::self < 0) return __real_pthread_mutex_lock(m);
    sched::point(true);
    int r;
    while ((r = __real_pthread_mutex_trylock(m)) == EBUSY) sched::block(m);
    sched::point(true);
    return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    sched::point(true);
    return __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    int r = __real_pthread_mutex_unlock(m);
    if (sched::on && sched::self >= 0) {
        sched::unblock(m);
        sched::point(true);
    }
    return r;
}
int __wrap_pthread_once(pthread_once_t* f, void (*fn)(void)) {
    sched::point(true);
    sched::nopreempt++;
    int r = __real_pthread_once(f, fn);
    sched::nopreempt--;
    sched::point(true);
    return r;
}
unsigned __real_sleep(unsigned);
int __real_usleep(unsigned);
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_sched_yield(void);
unsigned __wrap_sleep(unsigned n) { if (!sched::on || sched::self < 0) return __real_sleep(n); sched::yield_(); return 0; }
int __wrap_usleep(unsigned n) { if (!sched::on || sched::self < 0) return __real_usleep(n); sched::yield_(); return 0; }
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { if (!sched::on || sched::self < 0) return __real_nanosleep(a, b); sched::yield_(); return 0; }
int __wrap_sched_yield(void) { if (!sched::on || sched::self < 0) return __real_sched_yield(); sched::yield_(); return 0; }
}
