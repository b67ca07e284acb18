// Deterministic simulation runtime: implementation. Compiled WITHOUT -fsanitize=thread.
// No C++ standard library templates here (they would clash with the instrumented copies).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

using namespace simrt;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uintptr_t uptr;

extern "C" char __data_start, _end;
extern "C" void *__real_malloc(size_t);
extern "C" void __real_free(void *);
extern "C" void *__real_realloc(void *, size_t);
extern "C" void *__real_calloc(size_t, size_t);

// ------------------------------------------------------------------ raw syscalls
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

// ------------------------------------------------------------------ layout
static const uptr ARENA = 0x1000000000ull;  static const size_t ARENA_SZ = 2048ull << 20;
static const uptr STACKS = 0x1100000000ull; static const size_t STACK_SZ = 1ull << 20;
static const int MAXT = 64;
static const size_t STACKS_SZ = STACK_SZ * MAXT;
static const uptr SH_ARENA = 0x2000000000ull;   // 64 bytes of shadow per 8 bytes
static const uptr SH_STACKS = 0x3000000000ull;
static const uptr SH_GLOB = 0x3800000000ull;
static const uptr STATE = 0x4000000000ull;      // 1 byte per 8 bytes of arena
static const uptr BLKIDX = 0x4100000000ull;     // 4 bytes per 16 bytes of arena
static const uptr ALTSTK = 0x4200000000ull;

struct Cell { u32 clk; u8 tid, mask, fl, used; u32 pc; u32 pad; };   // fl: 1 write, 2 atomic, 4 free
struct Sh { Cell c[4]; };

struct Block { u32 off16; u32 size; u8 live, harness, kind, pad; u32 pc; u32 fpc; };
static const u32 MAXBLK = 1u << 23;

enum St { S_RUN, S_MUTEX, S_COND, S_FUTEX, S_JOIN, S_SLEEP, S_ONCE, S_RDLOCK, S_WRLOCK, S_SEM, S_DONE };
static const char *st_name[] = {"runnable", "waiting for a mutex", "waiting on a condition variable", "waiting for a future (futex)", "joining a thread", "sleeping", "waiting for a one-time initialisation", "waiting for a read lock", "waiting for a write lock", "waiting on a semaphore", "ended"};

struct VC { u32 c[MAXT]; };
struct Thread {
    int id; int st; void *obj; void *obj2; int timed; int notified; int timedout; u64 deadline; int jtarget;
    int baton; VC vc; VC acqf; VC relf; int has_relf; int nosim; int internal;
    void *(*fn)(void *); void *arg; pthread_t handle; int detached, joined;
    u64 prio; u64 runsteps; u32 depth; uptr cs[512]; uptr stk_lo, stk_hi; int yielded; int rdepth;
};
struct SyncVar { uptr addr; VC vc; u32 ord; };
static const u32 SVCAP = 1u << 19;

static struct G {
    int active; int running; int nthreads; u64 step, next_slow; u64 cap, fair_at; int fair; int fair_ctr;
    RunConfig *cfg; RunResult *res; u32 ti; u64 rs, rf, rw; // rng states
    int strat; u32 p_sync, p_hot, geo; u64 next_pre; u64 pct_cp[8]; int pct_n; u64 pct_low;
    u32 p_spur; int spur_on; u32 p_tmo;
    int race; int quiet_races; int light; u64 simtime;
    uptr bump; u32 nblk; u64 allocs; u64 seqno;
    int a_mode; u32 a_n, a_len; u32 a_ppm; u32 t_n, t_len; int t_on; int nprocs; int ended;
    uptr glo, ghi; u32 svord; int reuse, created; int nprocs0; int inited; int inited2; int mapped; const char *tolerate;
} g;
static Thread T[MAXT];
static SyncVar *SV;  static Block *BLK;
static __thread Thread *self __attribute__((tls_model("initial-exec")));

static pthread_key_t endkey;
static void (*the_body)();

#define REAL(name) ((decltype(&name))real_##name)
#define DECL_REAL(name) static void *real_##name
DECL_REAL(pthread_create); DECL_REAL(pthread_join); DECL_REAL(pthread_detach); DECL_REAL(pthread_mutex_lock); DECL_REAL(pthread_mutex_trylock);
DECL_REAL(pthread_mutex_unlock); DECL_REAL(pthread_mutex_timedlock); DECL_REAL(pthread_cond_wait); DECL_REAL(pthread_cond_timedwait); DECL_REAL(pthread_cond_clockwait);
DECL_REAL(pthread_cond_signal); DECL_REAL(pthread_cond_broadcast); DECL_REAL(pthread_cond_destroy); DECL_REAL(pthread_once);
DECL_REAL(pthread_rwlock_rdlock); DECL_REAL(pthread_rwlock_wrlock); DECL_REAL(pthread_rwlock_tryrdlock); DECL_REAL(pthread_rwlock_trywrlock); DECL_REAL(pthread_rwlock_unlock);
DECL_REAL(sched_yield); DECL_REAL(nanosleep); DECL_REAL(clock_nanosleep); DECL_REAL(clock_gettime); DECL_REAL(gettimeofday);
DECL_REAL(sem_wait); DECL_REAL(sem_trywait); DECL_REAL(sem_post); DECL_REAL(exit); DECL_REAL(sysconf);

static void resolve_all() {
    static int done; if (done) return; done = 1;
#define R(name) real_##name = dlsym(RTLD_NEXT, #name)
    R(pthread_create); R(pthread_join); R(pthread_detach); R(pthread_mutex_lock); R(pthread_mutex_trylock); R(pthread_mutex_unlock); R(pthread_mutex_timedlock);
    R(pthread_cond_wait); R(pthread_cond_timedwait); R(pthread_cond_clockwait); R(pthread_cond_signal); R(pthread_cond_broadcast); R(pthread_cond_destroy);
    R(pthread_once); R(pthread_rwlock_rdlock); R(pthread_rwlock_wrlock); R(pthread_rwlock_tryrdlock); R(pthread_rwlock_trywrlock); R(pthread_rwlock_unlock);
    R(sched_yield); R(nanosleep); R(clock_nanosleep); R(clock_gettime); R(gettimeofday); R(sem_wait); R(sem_trywait); R(sem_post); R(exit); R(sysconf);
#undef R
}

// ------------------------------------------------------------------ PRNG, hashing
static inline u64 splitmix(u64 &s) { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static inline u32 rnd(u64 &s, u32 n) { return n <= 1 ? 0 : (u32)((splitmix(s) >> 32) * (u64)n >> 32); }
static inline bool chance(u64 &s, u32 ppm) { return ppm && rnd(s, 1000000) < ppm; }
static inline void mixh(u64 &h, u64 v) { h = (h ^ v) * 0x100000001b3ull; h ^= h >> 29; }
#define HASH(a, b) do { mixh(g.res->hash, (u64)(a)); mixh(g.res->hash, (u64)(b)); } while (0)
#define IHASH(a, b, c) do { mixh(g.res->ihash, ((u64)(a) << 56) ^ ((u64)(b) << 40) ^ (u64)(c)); HASH(a, c); } while (0)

static inline bool in_sim() { return g.active && self && !self->nosim && !self->internal; }

// ------------------------------------------------------------------ verdicts
__attribute__((weak)) void rt_cov_end();       // coverage build only
[[noreturn]] static void end_run() {
    g.ended = 1; g.res->steps = g.step; g.res->simtime_ns = g.simtime + g.step * 20; g.res->threads = (u32)g.created;
    g.res->finished = 1;
    if (rt_cov_end) rt_cov_end();
    raw_syscall(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    __builtin_trap();
}
static void grab_stack(uptr pc) {
    u32 n = 0;
    if (pc) g.res->stack[n++] = pc;
    if (self) for (u32 d = self->depth < 512 ? self->depth : 512; d > 0 && n < 48;) g.res->stack[n++] = self->cs[--d];
    g.res->nstack = n;
}
static void vset(const char *kind, const char *fmt, va_list ap) {
    if (g.res->violated || g.res->finished || g.res->inconclusive) return;
    const char *p = g.tolerate ? strstr(g.tolerate, kind) : nullptr;
    if (p) g.res->inconclusive = 2; else g.res->violated = 1;
    snprintf(g.res->kind, sizeof g.res->kind, "%s", kind);
    vsnprintf(g.res->detail, sizeof g.res->detail, fmt, ap);
}
[[noreturn]] static void fail_pc(uptr pc, const char *kind, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vset(kind, fmt, ap); va_end(ap);
    grab_stack(pc); end_run();
}
namespace simrt {
void violation(const char *kind, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vset(kind, fmt, ap); va_end(ap);
    grab_stack((uptr)__builtin_return_address(0)); end_run();
}
void inconclusive(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); g.res->inconclusive = 1; vsnprintf(g.res->detail, sizeof g.res->detail, fmt, ap); va_end(ap);
    end_run();
}
}

// ------------------------------------------------------------------ vector clocks
static inline void vc_join(VC &a, const VC &b) { for (int i = 0; i < g.nthreads; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static SyncVar *sv_get(uptr addr) {
    u32 h = (u32)((addr >> 2) * 0x9e3779b97f4a7c15ull >> 40) & (SVCAP - 1);
    for (u32 i = 0; i < SVCAP; ++i, h = (h + 1) & (SVCAP - 1)) {
        if (SV[h].addr == addr) return &SV[h];
        if (!SV[h].addr) {
            if (g.svord > SVCAP * 3 / 4) inconclusive("too many synchronisation objects");
            SV[h].addr = addr; SV[h].ord = ++g.svord; return &SV[h];
        }
    }
    inconclusive("sync table full");
}
static inline void tick() { self->vc.c[self->id]++; }
static void acquire(SyncVar *s) { vc_join(self->vc, s->vc); }
static void release_join(SyncVar *s) { vc_join(s->vc, self->vc); tick(); }

// ------------------------------------------------------------------ scheduler
static inline void futex_wait_raw(int *p, int v) { raw_syscall(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static inline void futex_wake_raw(int *p) { raw_syscall(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void wait_baton(Thread *t) {
    for (;;) { if (__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE)) break; futex_wait_raw(&t->baton, 0); }
    __atomic_store_n(&t->baton, 0, __ATOMIC_RELAXED);
}
static void give_baton(Thread *t) { g.running = t->id; __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE); futex_wake_raw(&t->baton); }

// locks are kept in the first bytes of the real pthread objects
static inline int &mx_lock(void *m) { return ((pthread_mutex_t *)m)->__data.__lock; }
static inline int &mx_owner(void *m) { return ((pthread_mutex_t *)m)->__data.__owner; }
static inline unsigned &mx_count(void *m) { return ((pthread_mutex_t *)m)->__data.__count; }
static inline int mx_kind(void *m) { return ((pthread_mutex_t *)m)->__data.__kind & 3; }
// rwlock overlay: __readers = reader count, __writers = writer tid+1
static inline unsigned &rw_r(void *m) { return ((pthread_rwlock_t *)m)->__data.__readers; }
static inline unsigned &rw_w(void *m) { return ((pthread_rwlock_t *)m)->__data.__writers; }

static u64 now_ns() { return g.simtime + g.step * 20; }
static bool enabled(Thread *t) {
    switch (t->st) {
    case S_RUN: return true;
    case S_MUTEX: return mx_lock(t->obj) == 0;
    case S_COND: return (t->notified || t->timedout) && mx_lock(t->obj2) == 0;
    case S_FUTEX: return t->notified || t->timedout;
    case S_JOIN: return T[t->jtarget].st == S_DONE;
    case S_SLEEP: return t->timedout || now_ns() >= t->deadline;
    case S_ONCE: return *(volatile u8 *)t->obj2 != (u8)t->jtarget;
    case S_RDLOCK: return rw_w(t->obj) == 0;
    case S_WRLOCK: return rw_w(t->obj) == 0 && rw_r(t->obj) == 0;
    case S_SEM: return *(volatile unsigned *)t->obj > 0;
    default: return false;
    }
}
static void trace_add(u32 kind, u32 val) {
    if (g.fair) return;
    if (g.res->ntrace < MAX_TRACE) { TraceEntry &e = g.res->trace[g.res->ntrace++]; e.step = g.step; e.kind = kind; e.val = val; }
    else g.res->trace_overflow = 1;
}
static bool trace_get(u32 kind, u32 *val) {   // replay: consume an entry for this step and kind
    u32 i = g.ti;
    while (i < g.cfg->ntrace && g.cfg->trace[i].step < g.step) { ++i; g.ti = i; }
    for (; i < g.cfg->ntrace && g.cfg->trace[i].step == g.step; ++i)
        if (g.cfg->trace[i].kind == kind) { *val = g.cfg->trace[i].val; return true; }
    return false;
}
static void set_next_slow() {
    u64 n = g.fair ? g.cap : g.fair_at;
    if (g.cfg->replay) { if (g.ti < g.cfg->ntrace && g.cfg->trace[g.ti].step < n && !g.fair) n = g.cfg->trace[g.ti].step; }
    else if (!g.fair) {
        if (g.next_pre && g.next_pre < n) n = g.next_pre;
        for (int i = 0; i < g.pct_n; ++i) if (g.pct_cp[i] > g.step && g.pct_cp[i] < n) n = g.pct_cp[i];
        if (self) { u64 lim = self->runsteps + 20000; if (lim < n) n = lim; }
    }
    if (g.fair) { u64 m = g.step + 300; if (m < n) n = m; }
    g.next_slow = n <= g.step ? g.step + 1 : n;
}
static void describe_threads(char *b, size_t cap) {
    size_t o = 0;
    for (int i = 0; i < g.nthreads && o + 200 < cap; ++i) {
        if (T[i].st == S_DONE) continue;
        o += (size_t)snprintf(b + o, cap - o, " [thread %d: %s%s]", i, st_name[T[i].st], T[i].st == S_RUN && !(&T[i] == self) ? "" : "");
    }
}
[[noreturn]] static void deadlock() {
    char b[3000]; b[0] = 0; describe_threads(b, sizeof b);
    fail_pc(0, "hang", "deadlock: no thread can make progress any more;%s", b);
}
static int fire_timeout(int tid) {
    Thread *t = &T[tid]; u64 n = now_ns();
    if (t->deadline > n) g.simtime += t->deadline - n;
    t->timedout = 1; return tid;
}
// choose who runs next; cur may be disabled (forced) or enabled (voluntary)
static Thread *pick(Thread *cur, bool must_leave, bool yield = false) {
    int E[MAXT]; int n = 0;
again:
    n = 0;
    for (int i = 0; i < g.nthreads; ++i) if (enabled(&T[i])) E[n++] = i;
    if (n == 0) {
        int best = -1;
        for (int i = 0; i < g.nthreads; ++i) if (T[i].timed && T[i].st != S_DONE && !T[i].timedout && (best < 0 || T[i].deadline < T[best].deadline)) best = i;
        if (best < 0) deadlock();
        fire_timeout(best); goto again;
    }
    bool cur_on = cur && enabled(cur);
    int def = cur_on ? cur->id : E[0];     // what a replay does without a recorded decision
    if (yield && cur_on) for (int k = 1; k <= g.nthreads; ++k) { int i = (cur->id + k) % g.nthreads; if (enabled(&T[i])) { def = i; break; } }
    if (g.fair) {   // round robin
        int c = cur ? cur->id : 0;
        for (int k = 1; k <= g.nthreads; ++k) { int i = (c + k) % g.nthreads; if (enabled(&T[i])) return &T[i]; }
    }
    if (g.cfg->replay) {
        u32 v; if (trace_get(TK_SWITCH, &v) && v < (u32)g.nthreads && enabled(&T[v])) return &T[v];
        return &T[def];
    }
    int ch;
    if (g.strat == 3) {
        ch = E[0];
        for (int i = 1; i < n; ++i) if (T[E[i]].prio > T[ch].prio) ch = E[i];
        if (must_leave && n > 1 && ch == cur->id) { ch = -1; for (int i = 0; i < n; ++i) if (E[i] != cur->id && (ch < 0 || T[E[i]].prio > T[ch].prio)) ch = E[i]; }
    } else {
        int m = n; int idx;
        if (must_leave && cur_on && n > 1) { do idx = (int)rnd(g.rs, (u32)m); while (E[idx] == cur->id); }
        else idx = (int)rnd(g.rs, (u32)m);
        ch = E[idx];
    }
    if (ch != def) trace_add(TK_SWITCH, (u32)ch);
    return &T[ch];
}
static void geo_next() { if (g.geo) g.next_pre = g.step + 1 + rnd(g.rs, 2 * g.geo); }
static void run_other(Thread *cur, Thread *nx) {   // cur gives up the CPU to nx and waits
    if (nx == cur) { return; }
    g.res->switches++; IHASH(9, nx->id, cur->st);
    nx->runsteps = g.step; 
    Thread *me = cur;
    give_baton(nx); wait_baton(me);
    g.running = me->id;
    set_next_slow();
}
// current thread cannot continue (its st is a waiting state) until enabled and picked
static void block_here() {
    g.step++;
    Thread *me = self;
    Thread *nx = pick(me, false);
    me->runsteps = g.step;
    if (nx != me) run_other(me, nx);
    me->st = S_RUN; me->timed = 0;
}
static void enter_fair() { if (!g.fair) { g.fair = 1; g.res->faults[FS_FAIR]++; g.a_mode = 0; g.t_on = 0; } }
static void try_spurious() {
    int W[MAXT]; int n = 0;
    for (int i = 0; i < g.nthreads; ++i) if ((T[i].st == S_COND || T[i].st == S_FUTEX) && !T[i].notified && !T[i].timedout) W[n++] = i;
    if (!n) return;
    int c = W[rnd(g.rs, (u32)n)];
    T[c].notified = 1; trace_add(TK_SPURIOUS, (u32)c);
    g.res->faults[T[c].st == S_COND ? FS_SPURIOUS_COND : FS_SPURIOUS_FUTEX]++;
}
// the scheduling decision at a step (called with the step already counted)
static void slow_point(bool sync, bool shared, bool yield) {
    Thread *me = self;
    if (g.step >= g.cap) { char b[3000]; b[0] = 0; describe_threads(b, sizeof b); fail_pc(0, "hang", "no progress: still running after %llu steps, the last %llu of them scheduled fairly and without faults;%s", (unsigned long long)g.step, (unsigned long long)(g.cap - g.fair_at), b); }
    if (g.step >= g.fair_at) enter_fair();
    if (g.fair) { Thread *nx = pick(me, true); if (nx != me) run_other(me, nx); set_next_slow(); return; }
    if (g.cfg->replay) {
        u32 v;
        if (trace_get(TK_SPURIOUS, &v) && v < (u32)g.nthreads && (T[v].st == S_COND || T[v].st == S_FUTEX) && !T[v].notified) { T[v].notified = 1; g.res->faults[T[v].st == S_COND ? FS_SPURIOUS_COND : FS_SPURIOUS_FUTEX]++; }
        if (trace_get(TK_TIMEOUT, &v) && v < (u32)g.nthreads && T[v].timed && !T[v].timedout) { fire_timeout((int)v); g.res->faults[FS_TIMEOUT]++; }
        Thread *nx = pick(me, yield, yield);
        if (nx != me) { g.res->faults[FS_PREEMPT]++; run_other(me, nx); }
        while (g.ti < g.cfg->ntrace && g.cfg->trace[g.ti].step <= g.step) ++g.ti;
        set_next_slow(); return;
    }
    if (sync) {
        if (g.spur_on && g.p_spur && chance(g.rs, g.p_spur)) try_spurious();
        if (g.p_tmo && chance(g.rs, g.p_tmo)) {
            int W[MAXT]; int n = 0;
            for (int i = 0; i < g.nthreads; ++i) if (T[i].timed && !T[i].timedout && !enabled(&T[i])) W[n++] = i;
            if (n) { int c = W[rnd(g.rs, (u32)n)]; fire_timeout(c); trace_add(TK_TIMEOUT, (u32)c); g.res->faults[FS_TIMEOUT]++; }
        }
    }
    bool sw = false, force = false;
    if (yield || g.step > me->runsteps + 20000) { sw = force = true; if (g.strat == 3) me->prio = g.pct_low--; }
    else if (g.strat == 3) {
        sw = sync;
        for (int i = 0; i < g.pct_n; ++i) if (g.pct_cp[i] == g.step) { me->prio = g.pct_low--; sw = true; }
    } else {
        if (sync && chance(g.rs, g.p_sync)) sw = true;
        if (!sync && shared && g.strat == 4 && chance(g.rs, g.p_hot)) sw = force = true;
        if (g.next_pre && g.step >= g.next_pre) { sw = force = true; geo_next(); }
    }
    if (sw) { Thread *nx = pick(me, force, yield); if (nx != me) { g.res->faults[FS_PREEMPT]++; run_other(me, nx); } else me->runsteps = force ? g.step : me->runsteps; }
    set_next_slow();
}
static void sync_point(u32 op, u32 ord) {   // preemption point in front of a synchronisation operation
    g.step++; g.res->syncops++;
    IHASH(op, self->id, ord);
    if (g.cfg->replay) { if (g.step >= g.next_slow) slow_point(true, true, false); }
    else slow_point(true, true, false);
}

// ------------------------------------------------------------------ memory accesses
static inline Sh *shadow_of(uptr a) {
    if (a - ARENA < ARENA_SZ) return (Sh *)(SH_ARENA + ((a - ARENA) >> 3) * sizeof(Sh));
    if (a - STACKS < STACKS_SZ) return (Sh *)(SH_STACKS + ((a - STACKS) >> 3) * sizeof(Sh));
    if (a - g.glo < g.ghi - g.glo) return (Sh *)(SH_GLOB + ((a - g.glo) >> 3) * sizeof(Sh));
    return nullptr;
}
static const char *region(uptr a, char *b, size_t cap) {
    if (a - ARENA < ARENA_SZ) {
        u32 bi = 0; uptr p = (a - ARENA) >> 4;
        for (int k = 0; k < 4096 && !bi; ++k) { bi = ((u32 *)BLKIDX)[p]; if (!p--) break; }
        if (bi) { Block &k = BLK[bi - 1]; snprintf(b, cap, "%s heap block #%u of %u bytes, offset %lld", k.live ? "live" : "freed", bi, k.size, (long long)(a - (ARENA + ((uptr)k.off16 << 4)))); }
        else snprintf(b, cap, "heap");
    } else if (a - STACKS < STACKS_SZ) snprintf(b, cap, "stack of thread %d", (int)((a - STACKS) / STACK_SZ));
    else if (a - g.glo < g.ghi - g.glo) snprintf(b, cap, "global 0x%llx", (unsigned long long)a);
    else snprintf(b, cap, "other memory");
    return b;
}
[[noreturn]] static void race_fail(uptr a, u8 fl, uptr pc, Cell &c) {
    char rb[200];
    g.res->stack2[0] = c.pc; g.res->nstack2 = 1;
    fail_pc(pc, "race", "data race: thread %d %s and thread %d earlier %s the same memory (%s) with nothing ordering the two", self->id,
            fl & 4 ? "frees" : (fl & 1) ? "writes" : "reads", c.tid, c.fl & 4 ? "freed" : (c.fl & 1) ? "wrote" : "read", region(a, rb, sizeof rb));
}
// one granule; returns true if another thread has touched it
static inline bool granule(uptr a8, u8 mask, u8 fl, uptr pc, Sh *s) {
    Thread *t = self; bool shared = false, stored = false; int slot = -1;
    for (int i = 0; i < 4; ++i) {
        Cell &c = s->c[i];
        if (!c.used) { if (slot < 0) slot = i; continue; }
        if (c.tid == t->id) {
            if (!(c.mask & ~mask) && ((fl & 1) || !(c.fl & 1)) && (!(fl & 2) || (c.fl & 2))) {
                if (!stored) { c.clk = t->vc.c[t->id]; c.mask = mask; c.fl = fl; c.pc = (u32)pc; stored = true; } else c.used = 0;
            } else if (c.mask == mask && (c.fl & 1) && !(fl & 1) && (c.clk == t->vc.c[t->id]) && (!(fl & 2) == !(c.fl & 2))) stored = true;
        } else {
            shared = true;
            if (c.clk > t->vc.c[c.tid]) {
                if ((c.mask & mask) && ((c.fl | fl) & 1) && !((c.fl & 2) && (fl & 2)) && g.race && !g.quiet_races) race_fail(a8, fl, pc, c);
            } else if ((fl & 1) && !(c.mask & ~mask)) { if (!stored && slot < 0) slot = i; }
        }
    }
    if (!stored) {
        if (slot < 0) { slot = (int)(g.step & 3); for (int k = 0; k < 4; ++k) { Cell &c = s->c[(slot + k) & 3]; if (c.clk <= t->vc.c[c.tid]) { slot = (slot + k) & 3; break; } } }
        Cell &c = s->c[slot]; c.clk = t->vc.c[t->id]; c.tid = (u8)t->id; c.mask = mask; c.fl = fl; c.used = 1; c.pc = (u32)pc;
    }
    return shared;
}
static void bad_access(uptr a, size_t sz, bool w, uptr pc, u8 st) {
    char rb[200];
    fail_pc(pc, st == 0xfd ? "use-after-free" : "out-of-bounds", "thread %d %s %zu byte(s) of %s memory (%s)", self->id, w ? "writes" : "reads", sz,
            st == 0xfd ? "freed" : "unallocated", region(a, rb, sizeof rb));
}
static inline void heap_check(uptr a, size_t sz, bool w, uptr pc) {
    uptr e = a + sz;
    for (uptr p = a & ~7ull; p < e; p += 8) {
        u8 st = ((u8 *)STATE)[(p - ARENA) >> 3];
        if (st == 8) continue;
        uptr hi = e < p + 8 ? e - p : 8;
        if (st == 0xfd || hi > st) bad_access(a, sz, w, pc, st);
    }
}
static bool mem_range(uptr a, size_t sz, u8 fl, uptr pc) {
    bool shared = false;
    if (a - ARENA < ARENA_SZ) heap_check(a, sz, fl & 1, pc);
    if (g.light) return false;
    uptr e = a + sz;
    for (uptr p = a & ~7ull; p < e; p += 8) {
        Sh *s = shadow_of(p); if (!s) break;
        u8 m = 0xff;
        if (p < a) m &= (u8)(0xff << (a - p));
        if (p + 8 > e) m &= (u8)(0xff >> (p + 8 - e));
        shared |= granule(p, m, fl, pc, s);
    }
    return shared;
}
static inline void on_access(uptr a, u32 sz, u8 fl, uptr pc) {
    if (!in_sim()) return;
    Thread *t = self;
    bool shared;
    Sh *s = shadow_of(a);
    if (s) {
        u32 off = a & 7;
        if (a - ARENA < ARENA_SZ) heap_check(a, sz, fl & 1, pc);
        if (g.light) shared = false;
        else if (off + sz <= 8) shared = granule(a & ~7ull, (u8)(((1u << sz) - 1) << off), fl, pc, s);
        else shared = mem_range(a, sz, fl, pc);
    } else shared = false;
    if (!shared && a - t->stk_lo < STACK_SZ) return;      // private stack traffic is not a step
    g.step++;
    mixh(g.res->hash, (s ? a : 0) ^ ((u64)t->id << 50) ^ fl);
    if (g.step >= g.next_slow || (shared && g.strat == 4 && !g.cfg->replay && !g.fair)) slow_point(false, shared, false);
}

#define PC ((uptr)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) { Thread *t = self; if (t) { if (t->depth < 512) t->cs[t->depth] = (uptr)pc; t->depth++; } }
void __tsan_func_exit() { Thread *t = self; if (t && t->depth) t->depth--; }
#define ACC(n) \
    void __tsan_read##n(void *p) { on_access((uptr)p, n, 0, PC); } \
    void __tsan_write##n(void *p) { on_access((uptr)p, n, 1, PC); } \
    void __tsan_read_write##n(void *p) { on_access((uptr)p, n, 0, PC); on_access((uptr)p, n, 1, PC); } \
    void __tsan_unaligned_read##n(void *p) { on_access((uptr)p, n, 0, PC); } \
    void __tsan_unaligned_write##n(void *p) { on_access((uptr)p, n, 1, PC); } \
    void __tsan_unaligned_read_write##n(void *p) { on_access((uptr)p, n, 0, PC); on_access((uptr)p, n, 1, PC); } \
    void __tsan_volatile_read##n(void *p) { on_access((uptr)p, n, 0, PC); } \
    void __tsan_volatile_write##n(void *p) { on_access((uptr)p, n, 1, PC); } \
    void __tsan_unaligned_volatile_read##n(void *p) { on_access((uptr)p, n, 0, PC); } \
    void __tsan_unaligned_volatile_write##n(void *p) { on_access((uptr)p, n, 1, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n);
void __tsan_vptr_update(void **p, void *) { on_access((uptr)p, 8, 1, PC); }
void __tsan_vptr_read(void **p) { on_access((uptr)p, 8, 0, PC); }
static void range(uptr a, size_t n, u8 fl, uptr pc) {
    if (!n || !in_sim()) return;
    bool sh = mem_range(a, n, fl, pc);
    if (!sh && a - self->stk_lo < STACK_SZ) return;
    g.step++; mixh(g.res->hash, (shadow_of(a) ? a : 0) ^ n ^ ((u64)self->id << 50) ^ fl);
    if (g.step >= g.next_slow || (sh && g.strat == 4 && !g.cfg->replay && !g.fair)) slow_point(false, sh, false);
}
void __tsan_read_range(void *p, size_t n) { range((uptr)p, n, 0, PC); }
void __tsan_write_range(void *p, size_t n) { range((uptr)p, n, 1, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { range((uptr)s, n, 0, PC); range((uptr)d, n, 1, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { range((uptr)s, n, 0, PC); range((uptr)d, n, 1, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { range((uptr)d, n, 1, PC); return memset(d, c, n); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
}

// ------------------------------------------------------------------ atomics
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
enum { AT_LOAD, AT_STORE, AT_RMW };
// scheduling, race and happens-before bookkeeping for an atomic operation
static void atomic_pre(uptr a, u32 sz, int kind, uptr pc) {
    Sh *s = shadow_of(a);
    if (g.light) { sync_point(1 + (u32)kind, 0); if (a - ARENA < ARENA_SZ) heap_check(a, sz, kind != AT_LOAD, pc); return; }
    SyncVar *v = sv_get(a);
    sync_point(1 + (u32)kind, v->ord);
    if (s) {
        if (a - ARENA < ARENA_SZ) heap_check(a, sz, kind != AT_LOAD, pc);
        granule(a & ~7ull, (u8)(((1u << sz) - 1) << (a & 7)), (u8)((kind == AT_LOAD ? 0 : 1) | 2), pc, s);
    }
}
static void atomic_hb(uptr a, int kind, int mo) {
    if (g.light) return;
    SyncVar *v = sv_get(a); Thread *t = self;
    if (kind != AT_STORE) { if (is_acq(mo)) vc_join(t->vc, v->vc); else vc_join(t->acqf, v->vc); }
    if (kind != AT_LOAD) {
        if (is_rel(mo)) { if (kind == AT_STORE) v->vc = t->vc; else vc_join(v->vc, t->vc); tick(); }
        else if (kind == AT_STORE) { if (t->has_relf) v->vc = t->relf; else memset(&v->vc, 0, sizeof v->vc); }
        else if (t->has_relf) vc_join(v->vc, t->relf);
    }
}
template <class X> static inline X at_load(volatile X *p, int mo, uptr pc) {
    if (!in_sim()) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
    atomic_pre((uptr)p, sizeof(X), AT_LOAD, pc); X v = *p; atomic_hb((uptr)p, AT_LOAD, mo); HASH(v, mo); return v;
}
template <class X> static inline void at_store(volatile X *p, X v, int mo, uptr pc) {
    if (!in_sim()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }
    atomic_pre((uptr)p, sizeof(X), AT_STORE, pc); *p = v; atomic_hb((uptr)p, AT_STORE, mo); HASH(v, mo);
}
template <class X, class F> static inline X at_rmw(volatile X *p, int mo, uptr pc, F f) {
    if (!in_sim()) { X o = __atomic_load_n(p, __ATOMIC_SEQ_CST); while (!__atomic_compare_exchange_n(p, &o, f(o), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {} return o; }
    atomic_pre((uptr)p, sizeof(X), AT_RMW, pc); X o = *p; *p = f(o); atomic_hb((uptr)p, AT_RMW, mo); HASH(o, mo); return o;
}
template <class X> static inline bool at_cas(volatile X *p, X *exp, X des, int mo, int fmo, uptr pc) {
    if (!in_sim()) return __atomic_compare_exchange_n(p, exp, des, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    atomic_pre((uptr)p, sizeof(X), AT_RMW, pc);
    X o = *p;
    if (o == *exp) { *p = des; atomic_hb((uptr)p, AT_RMW, mo); HASH(o, mo); return true; }
    atomic_hb((uptr)p, AT_LOAD, fmo); *exp = o; HASH(o, fmo); return false;
}
extern "C" {
#define ATOMICS(n, X) \
    X __tsan_atomic##n##_load(const volatile X *p, int mo) { return at_load((volatile X *)p, mo, PC); } \
    void __tsan_atomic##n##_store(volatile X *p, X v, int mo) { at_store(p, v, mo, PC); } \
    X __tsan_atomic##n##_exchange(volatile X *p, X v, int mo) { return at_rmw(p, mo, PC, [v](X) { return v; }); } \
    X __tsan_atomic##n##_fetch_add(volatile X *p, X v, int mo) { return at_rmw(p, mo, PC, [v](X o) { return (X)(o + v); }); } \
    X __tsan_atomic##n##_fetch_sub(volatile X *p, X v, int mo) { return at_rmw(p, mo, PC, [v](X o) { return (X)(o - v); }); } \
    X __tsan_atomic##n##_fetch_and(volatile X *p, X v, int mo) { return at_rmw(p, mo, PC, [v](X o) { return (X)(o & v); }); } \
    X __tsan_atomic##n##_fetch_or(volatile X *p, X v, int mo) { return at_rmw(p, mo, PC, [v](X o) { return (X)(o | v); }); } \
    X __tsan_atomic##n##_fetch_xor(volatile X *p, X v, int mo) { return at_rmw(p, mo, PC, [v](X o) { return (X)(o ^ v); }); } \
    X __tsan_atomic##n##_fetch_nand(volatile X *p, X v, int mo) { return at_rmw(p, mo, PC, [v](X o) { return (X)~(o & v); }); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile X *p, X *e, X d, int mo, int fmo) { return at_cas(p, e, d, mo, fmo, PC); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile X *p, X *e, X d, int mo, int fmo) { return at_cas(p, e, d, mo, fmo, PC); } \
    X __tsan_atomic##n##_compare_exchange_val(volatile X *p, X e, X d, int mo, int fmo) { at_cas(p, &e, d, mo, fmo, PC); return e; }
ATOMICS(8, u8) ATOMICS(16, uint16_t) ATOMICS(32, u32) ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int mo) {
    if (!in_sim()) { __atomic_thread_fence(__ATOMIC_SEQ_CST); return; }
    sync_point(5, 0);
    if (is_acq(mo)) vc_join(self->vc, self->acqf);
    if (is_rel(mo)) { self->relf = self->vc; self->has_relf = 1; tick(); }
}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------ heap
static void ensure_maps();
extern "C" char __executable_start, etext;
static inline bool exe_pc(uptr pc) { return pc >= (uptr)&__executable_start && pc < (uptr)&etext; }
static void *heap_alloc(size_t sz, size_t align, u8 kind, uptr pc) {
    ensure_maps();
    if (align < 16) align = 16;
    if (sz > (64ull << 20)) return nullptr;
    uptr p = (g.bump + align - 1) & ~(uptr)(align - 1);
    uptr end = (p + (sz ? sz : 1) + 15) & ~15ull;
    if (end + 64 > ARENA + ARENA_SZ || g.nblk >= MAXBLK) inconclusive("simulated heap exhausted");
    g.bump = end + 16;
    u32 bi = g.nblk++;
    Block &b = BLK[bi];
    b.off16 = (u32)((p - ARENA) >> 4); b.size = (u32)sz; b.live = 1; b.kind = kind; b.pc = (u32)pc; b.fpc = 0;
    b.harness = !(g.active && self && !self->nosim);
    ((u32 *)BLKIDX)[(p - ARENA) >> 4] = bi + 1;
    u8 *st = (u8 *)STATE + ((p - ARENA) >> 3);
    size_t n = sz >> 3; memset(st, 8, n); if (sz & 7) st[n] = (u8)(sz & 7);
    // fresh memory of a recycled allocator holds garbage: fill with a pattern
    memset((void *)p, 0xa5, sz);
    g.allocs++;
    return (void *)p;
}
static void heap_free(void *q, u8 kind, uptr pc) {
    uptr p = (uptr)q;
    bool sim = g.active && self && !self->internal;
    if (!sim) { if (self == nullptr && !g.active) return; }
    u32 bi = (p & 15) ? 0 : ((u32 *)BLKIDX)[(p - ARENA) >> 4];
    char rb[200];
    if (!bi) { fail_pc(pc, "bad-free", "free of an address that is not the start of a block (%s)", region(p, rb, sizeof rb)); }
    Block &b = BLK[bi - 1];
    if (!b.live) fail_pc(pc, "double-free", "double free of heap block #%u (%u bytes)", bi, b.size);
    if (b.kind != kind && !(b.kind <= 1 && kind <= 1 && 0)) fail_pc(pc, "bad-free", "heap block #%u allocated with one kind of allocation function and released with another", bi);
    if (in_sim()) {
        g.step++; mixh(g.res->hash, p);
        if (g.step >= g.next_slow) slow_point(false, false, false);
        if (b.size && exe_pc(pc)) mem_range(p, b.size, 1 | 4, pc);   // a release inside libstdc++.so is ordered by reference counts the runtime cannot see
    }
    b.live = 0; b.fpc = (u32)pc;
    memset((u8 *)STATE + ((p - ARENA) >> 3), 0xfd, (b.size + 7) >> 3);
    memset(q, 0xdd, b.size);
}
// Functions of the C++ library that abandon an unfulfilled promise.  They run in noexcept destructors and allocate the
// broken_promise exception, so an allocation failure there is std::terminate whatever the library under test does: such
// an allocation is never failed.
struct PromRange { uptr lo, hi; };
static PromRange prom_ranges[4096]; static int nprom;
static void load_prom_ranges() {
    int fd = open("/proc/self/exe", O_RDONLY | O_CLOEXEC); if (fd < 0) return;
    off_t sz = lseek(fd, 0, SEEK_END);
    u8 *m = (u8 *)mmap(nullptr, sz, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
    if (m == MAP_FAILED) return;
    Elf64_Ehdr *eh = (Elf64_Ehdr *)m; Elf64_Shdr *sh = (Elf64_Shdr *)(m + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) {
        Elf64_Sym *sy = (Elf64_Sym *)(m + sh[i].sh_offset); size_t n = sh[i].sh_size / sizeof *sy;
        const char *st = (const char *)(m + sh[sh[i].sh_link].sh_offset);
        for (size_t k = 0; k < n; k++) {
            if ((sy[k].st_info & 15) != STT_FUNC || !sy[k].st_size) continue;
            const char *nm = st + sy[k].st_name; size_t l = strlen(nm);
            bool dtor = (l > 4 && nm[l - 4] == 'D' && nm[l - 3] >= '0' && nm[l - 3] <= '2' && !strcmp(nm + l - 2, "Ev"));
            bool m1 = strstr(nm, "_M_break_promise") != nullptr;
            bool m2 = dtor && (!strncmp(nm, "_ZNSt13packaged_taskI", 21) || !strncmp(nm, "_ZNSt7promiseI", 14));
            bool m3 = strstr(nm, "_Sp_counted_ptr_inplaceISt13packaged_taskI") && strstr(nm, "_M_disposeEv");
            if ((m1 || m2 || m3) && nprom < 4096) { prom_ranges[nprom].lo = sy[k].st_value; prom_ranges[nprom++].hi = sy[k].st_value + sy[k].st_size; }
        }
    }
    munmap(m, sz);
}
static bool breaking_promise(uptr pc) {
    auto in = [](uptr a) { for (int i = 0; i < nprom; i++) if (a > prom_ranges[i].lo && a <= prom_ranges[i].hi) return true; return false; };
    if (in(pc)) return true;
    u32 d = self->depth < 512 ? self->depth : 512;
    for (int k = 0; k < 12 && d > 0; k++) if (in(self->cs[--d])) return true;
    return false;
}
static bool want_alloc_fail(uptr pc) {   // decision at an allocation (step already counted)
    if (g.fair) return false;
    if (!g.cfg->replay && g.a_mode && !(g.a_mode == 1 && g.a_n > 1) && breaking_promise(pc)) return false;
    bool f = false;
    if (g.cfg->replay) { u32 v; f = trace_get(TK_ALLOC_FAIL, &v); }
    else if (g.a_mode == 1) { if (g.a_n > 1) g.a_n--; else if (g.a_len) { g.a_n = 1; g.a_len--; f = true; } }
    else if (g.a_mode == 2) f = chance(g.rf, g.a_ppm);
    if (f) { if (!g.cfg->replay) trace_add(TK_ALLOC_FAIL, 0); g.res->faults[FS_ALLOC_FAIL]++; IHASH(11, self->id, 0); }
    return f;
}
static void *sim_alloc(size_t sz, size_t align, u8 kind, uptr pc) {
    if (in_sim()) {
        g.step++; mixh(g.res->hash, sz ^ 0x5555); g.res->allocs++;
        if (g.step >= g.next_slow) slow_point(false, false, false);
        g.step++;   // own step for the failure decision
        if (want_alloc_fail(pc)) { if (g.cfg->replay) set_next_slow(); return nullptr; }
        if (g.step >= g.next_slow) set_next_slow();
    }
    return heap_alloc(sz, align, kind, pc);
}
static inline bool arena_mode() { return g.active ? self && !self->internal : !g.inited2; }   // static initialisation also uses the simulated heap
static inline bool is_arena(void *p) { return (uptr)p - ARENA < ARENA_SZ; }

void *operator new(size_t n) { if (!arena_mode()) { void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; } void *p = sim_alloc(n, 16, 0, PC); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { if (!arena_mode()) { void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; } void *p = sim_alloc(n, 16, 1, PC); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { if (!arena_mode()) return __real_malloc(n ? n : 1); return sim_alloc(n, 16, 0, PC); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { if (!arena_mode()) return __real_malloc(n ? n : 1); return sim_alloc(n, 16, 1, PC); }
void *operator new(size_t n, std::align_val_t a) { if (!arena_mode()) { void *p = aligned_alloc((size_t)a, (n + (size_t)a - 1) & ~((size_t)a - 1)); if (!p) throw std::bad_alloc(); return p; } void *p = sim_alloc(n, (size_t)a, 0, PC); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t a) { if (!arena_mode()) { void *p = aligned_alloc((size_t)a, (n + (size_t)a - 1) & ~((size_t)a - 1)); if (!p) throw std::bad_alloc(); return p; } void *p = sim_alloc(n, (size_t)a, 1, PC); if (!p) throw std::bad_alloc(); return p; }
static void op_delete(void *p, u8 kind, uptr pc) { if (!p) return; if (is_arena(p)) heap_free(p, kind, pc); else __real_free(p); }
void operator delete(void *p) noexcept { op_delete(p, 0, PC); }
void operator delete[](void *p) noexcept { op_delete(p, 1, PC); }
void operator delete(void *p, size_t) noexcept { op_delete(p, 0, PC); }
void operator delete[](void *p, size_t) noexcept { op_delete(p, 1, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { op_delete(p, 0, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { op_delete(p, 1, PC); }
void operator delete(void *p, std::align_val_t) noexcept { op_delete(p, 0, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { op_delete(p, 1, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { op_delete(p, 0, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { op_delete(p, 1, PC); }
extern "C" {
void *__wrap_malloc(size_t n) { if (!arena_mode()) return __real_malloc(n); return sim_alloc(n, 16, 2, PC); }
void __wrap_free(void *p) { if (!p) return; if (is_arena(p)) heap_free(p, 2, PC); else __real_free(p); }
void *__wrap_calloc(size_t a, size_t b) { if (!arena_mode()) return __real_calloc(a, b); void *p = sim_alloc(a * b, 16, 2, PC); if (p) memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *p, size_t n) {
    if (p && !is_arena(p)) return __real_realloc(p, n);
    if (!p && !arena_mode()) return __real_realloc(p, n);
    void *q = sim_alloc(n, 16, 2, PC); if (!q) return nullptr;
    if (p) { u32 bi = ((u32 *)BLKIDX)[((uptr)p - ARENA) >> 4]; size_t o = bi ? BLK[bi - 1].size : 0; memcpy(q, p, o < n ? o : n); heap_free(p, 2, PC); }
    return q;
}
}

// ------------------------------------------------------------------ threads
static void thread_end(void *v) {
    Thread *t = (Thread *)v;
    if (!g.active || self != t || g.ended) return;
    g.step++; IHASH(20, t->id, 0);
    t->st = S_DONE; t->nosim = 0;
    Thread *nx = pick(t, false);
    g.res->switches++; nx->runsteps = g.step;
    self = nullptr;
    give_baton(nx);
}
static void setup_altstack(Thread *t) {
    stack_t ss; ss.ss_sp = (void *)(ALTSTK + (uptr)t->id * 32768); ss.ss_size = 32768; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
}
static void *tramp(void *v) {
    Thread *t = (Thread *)v;
    self = t; setup_altstack(t);
    pthread_setspecific(endkey, t);
    wait_baton(t);
    self->vc.c[t->id]++;
    set_next_slow();
    return t->fn(t->arg);
}
static Thread *new_thread(void *(*fn)(void *), void *arg) {
    // The identity (pthread_t, stack, TLS addresses) of a thread that was joined is given to a new one, as the C library
    // does: always in half of the runs, otherwise when few are left. The creator must be ordered after the old thread's
    // end, so that the race detector may take both for one.
    Thread *t = nullptr; u32 clk = 0;
    if (self && (g.reuse || g.nthreads >= MAXT - 16)) for (int i = 1; i < g.nthreads && !t; ++i) if (T[i].st == S_DONE && T[i].joined && self->vc.c[i] >= T[i].vc.c[i]) t = &T[i];
    if (t) {
        REAL(pthread_join)(t->handle, nullptr);
        clk = t->vc.c[t->id]; int id = t->id; memset((void *)t, 0, sizeof *t); t->id = id;
        madvise((void *)(SH_STACKS + (uptr)id * STACK_SZ * 8), STACK_SZ * 8, MADV_DONTNEED);
    } else {
        if (g.nthreads >= MAXT) inconclusive("too many simulated threads");
        t = &T[g.nthreads]; t->id = g.nthreads++;
    }
    g.created++;
    t->st = S_RUN; t->fn = fn; t->arg = arg;
    t->stk_lo = STACKS + (uptr)t->id * STACK_SZ; t->stk_hi = t->stk_lo + STACK_SZ;
    t->prio = 1000000 + rnd(g.rs, 1000000);
    if (self) { t->vc = self->vc; }
    t->vc.c[t->id] = clk + 1;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void *)t->stk_lo, STACK_SZ);
    int e = REAL(pthread_create)(&t->handle, &at, tramp, t);
    pthread_attr_destroy(&at);
    if (e) inconclusive("real pthread_create failed: %d", e);
    return t;
}
static Thread *find_thread(pthread_t h) { for (int i = 0; i < g.nthreads; ++i) if (T[i].handle == h) return &T[i]; return nullptr; }

extern "C" {
int pthread_create(pthread_t *th, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    resolve_all();
    if (!in_sim()) { if (g.active && self && self->nosim) fail_pc(PC, "harness", "thread created in NoSim"); return REAL(pthread_create)(th, a, fn, arg); }
    sync_point(21, (u32)g.nthreads);
    g.step++;
    bool f = false;
    if (g.cfg->replay) { u32 v; f = trace_get(TK_THREAD_FAIL, &v); }
    else if (g.t_on && !g.fair) { if (g.t_n > 1) g.t_n--; else if (g.t_len) { g.t_len--; f = true; } }
    if (f) { if (!g.cfg->replay) trace_add(TK_THREAD_FAIL, 0); g.res->faults[FS_THREAD_FAIL]++; IHASH(22, self->id, 0); set_next_slow(); return EAGAIN; }
    Thread *t = new_thread(fn, arg); tick();
    *th = t->handle;
    g.step++; if (!g.cfg->replay || g.step >= g.next_slow) slow_point(true, true, false);
    return 0;
}
int pthread_join(pthread_t h, void **ret) {
    resolve_all();
    if (!in_sim()) return REAL(pthread_join)(h, ret);
    Thread *t = find_thread(h); if (!t) return ESRCH;
    if (t->detached || t->joined) return EINVAL;
    if (t == self) return EDEADLK;
    sync_point(23, (u32)t->id);
    if (t->st != S_DONE) { self->st = S_JOIN; self->jtarget = t->id; block_here(); }
    t->joined = 1; vc_join(self->vc, t->vc);
    if (ret) *ret = nullptr;
    return 0;
}
int pthread_detach(pthread_t h) {
    resolve_all();
    if (!in_sim()) return REAL(pthread_detach)(h);
    Thread *t = find_thread(h); if (t) t->detached = 1; return t ? 0 : ESRCH;
}

// ---- mutexes
static inline void chk(void *p, size_t n, bool w, uptr pc) { if ((uptr)p - ARENA < ARENA_SZ) heap_check((uptr)p, n, w, pc); }
static int do_lock(void *m, bool try_, uptr pc) {
    chk(m, sizeof(pthread_mutex_t), true, pc);
    SyncVar *v = sv_get((uptr)m);
    sync_point(try_ ? 31 : 30, v->ord);
    chk(m, sizeof(pthread_mutex_t), true, pc);
    if (mx_lock(m) && mx_owner(m) == self->id + 1) {
        if (mx_kind(m) == PTHREAD_MUTEX_RECURSIVE) { mx_count(m)++; return 0; }
        if (mx_kind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        if (try_) return EBUSY;
    }
    if (mx_lock(m)) { if (try_) return EBUSY; self->st = S_MUTEX; self->obj = m; block_here(); chk(m, sizeof(pthread_mutex_t), true, pc); }
    mx_lock(m) = 1; mx_owner(m) = self->id + 1; mx_count(m) = 1;
    acquire(sv_get((uptr)m));
    return 0;
}
static int do_unlock(void *m, uptr pc) {
    chk(m, sizeof(pthread_mutex_t), true, pc);
    SyncVar *v = sv_get((uptr)m);
    sync_point(32, v->ord);
    chk(m, sizeof(pthread_mutex_t), true, pc);
    if (!mx_lock(m) || mx_owner(m) != self->id + 1) fail_pc(pc, "bad-unlock", "thread %d unlocks a mutex it does not hold", self->id);
    if (mx_kind(m) == PTHREAD_MUTEX_RECURSIVE && mx_count(m) > 1) { mx_count(m)--; return 0; }
    mx_lock(m) = 0; mx_owner(m) = 0; mx_count(m) = 0;
    release_join(v);
    g.step++; if (!g.cfg->replay || g.step >= g.next_slow) slow_point(true, true, false);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { if (!in_sim()) { resolve_all(); return REAL(pthread_mutex_lock)(m); } return do_lock(m, false, PC); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!in_sim()) { resolve_all(); return REAL(pthread_mutex_trylock)(m); } return do_lock(m, true, PC); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!in_sim()) { resolve_all(); return REAL(pthread_mutex_unlock)(m); } return do_unlock(m, PC); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { if (!in_sim()) { resolve_all(); return REAL(pthread_mutex_timedlock)(m, ts); } return do_lock(m, false, PC); }

// ---- condition variables
static u64 ts_ns(const struct timespec *t) { return (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec; }
static int do_cond_wait(void *c, void *m, const struct timespec *abst, uptr pc) {
    chk(c, sizeof(pthread_cond_t), true, pc);
    SyncVar *v = sv_get((uptr)c);
    sync_point(40, v->ord);
    if (!mx_lock(m) || mx_owner(m) != self->id + 1) fail_pc(pc, "bad-unlock", "condition wait without holding the mutex");
    // release the mutex and start waiting: atomic
    mx_lock(m) = 0; mx_owner(m) = 0; mx_count(m) = 0; release_join(sv_get((uptr)m));
    self->st = S_COND; self->obj = c; self->obj2 = m; self->notified = 0; self->timedout = 0;
    if (abst) { self->timed = 1; self->deadline = ts_ns(abst); }
    block_here();
    chk(m, sizeof(pthread_mutex_t), true, pc);
    mx_lock(m) = 1; mx_owner(m) = self->id + 1; mx_count(m) = 1; acquire(sv_get((uptr)m));
    return self->timedout && !self->notified ? ETIMEDOUT : 0;
}
static void do_notify(void *c, bool all, uptr pc) {
    chk(c, sizeof(pthread_cond_t), true, pc);
    SyncVar *v = sv_get((uptr)c);
    sync_point(all ? 42 : 41, v->ord);
    chk(c, sizeof(pthread_cond_t), true, pc);
    int W[MAXT]; int n = 0;
    for (int i = 0; i < g.nthreads; ++i) if (T[i].st == S_COND && T[i].obj == c && !T[i].notified && !T[i].timedout) W[n++] = i;
    if (n) {
        if (all) { for (int i = 0; i < n; ++i) T[W[i]].notified = 1; }
        else {
            g.step++;
            int k = 0;
            if (n > 1 && !g.fair) {
                g.res->faults[FS_WAKE_CHOICE]++;
                if (g.cfg->replay) { u32 val; if (trace_get(TK_WAKE, &val)) for (int i = 0; i < n; ++i) if (W[i] == (int)val) k = i; }
                else { k = (int)rnd(g.rs, (u32)n); if (k) trace_add(TK_WAKE, (u32)W[k]); }
            }
            T[W[k]].notified = 1; set_next_slow();
        }
    }
    g.step++; if (!g.cfg->replay || g.step >= g.next_slow) slow_point(true, true, false);
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!in_sim()) { resolve_all(); return REAL(pthread_cond_wait)(c, m); } return do_cond_wait(c, m, nullptr, PC); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!in_sim()) { resolve_all(); return REAL(pthread_cond_timedwait)(c, m, t); } return do_cond_wait(c, m, t, PC); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!in_sim()) { resolve_all(); return REAL(pthread_cond_clockwait)(c, m, k, t); } return do_cond_wait(c, m, t, PC); }
int pthread_cond_signal(pthread_cond_t *c) { if (!in_sim()) { resolve_all(); return REAL(pthread_cond_signal)(c); } do_notify(c, false, PC); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!in_sim()) { resolve_all(); return REAL(pthread_cond_broadcast)(c); } do_notify(c, true, PC); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) {
    if (!in_sim()) { if (g.active) return 0; resolve_all(); return REAL(pthread_cond_destroy)(c); }
    for (int i = 0; i < g.nthreads; ++i) if (T[i].st == S_COND && T[i].obj == c && !T[i].notified) fail_pc(PC, "cond-destroyed", "a condition variable is destroyed while thread %d waits on it", i);
    return 0;
}

// ---- reader/writer locks
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (!in_sim()) { resolve_all(); return REAL(pthread_rwlock_rdlock)(m); } SyncVar *v = sv_get((uptr)m); sync_point(50, v->ord); if (rw_w(m)) { self->st = S_RDLOCK; self->obj = m; block_here(); } rw_r(m)++; acquire(v); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (!in_sim()) { resolve_all(); return REAL(pthread_rwlock_wrlock)(m); } SyncVar *v = sv_get((uptr)m); sync_point(51, v->ord); if (rw_w(m) || rw_r(m)) { self->st = S_WRLOCK; self->obj = m; block_here(); } rw_w(m) = (unsigned)self->id + 1; acquire(v); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { if (!in_sim()) { resolve_all(); return REAL(pthread_rwlock_tryrdlock)(m); } SyncVar *v = sv_get((uptr)m); sync_point(50, v->ord); if (rw_w(m)) return EBUSY; rw_r(m)++; acquire(v); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { if (!in_sim()) { resolve_all(); return REAL(pthread_rwlock_trywrlock)(m); } SyncVar *v = sv_get((uptr)m); sync_point(51, v->ord); if (rw_w(m) || rw_r(m)) return EBUSY; rw_w(m) = (unsigned)self->id + 1; acquire(v); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { if (!in_sim()) { resolve_all(); return REAL(pthread_rwlock_unlock)(m); } SyncVar *v = sv_get((uptr)m); sync_point(52, v->ord); if (rw_w(m) == (unsigned)self->id + 1) rw_w(m) = 0; else if (rw_r(m)) rw_r(m)--; release_join(v); return 0; }

// ---- semaphores
int sem_wait(sem_t *s) { if (!in_sim()) { resolve_all(); return REAL(sem_wait)(s); } SyncVar *v = sv_get((uptr)s); sync_point(53, v->ord); if (!*(unsigned *)s) { self->st = S_SEM; self->obj = s; block_here(); } --*(unsigned *)s; acquire(v); return 0; }
int sem_trywait(sem_t *s) { if (!in_sim()) { resolve_all(); return REAL(sem_trywait)(s); } SyncVar *v = sv_get((uptr)s); sync_point(53, v->ord); if (!*(unsigned *)s) { errno = EAGAIN; return -1; } --*(unsigned *)s; acquire(v); return 0; }
int sem_post(sem_t *s) { if (!in_sim()) { resolve_all(); return REAL(sem_post)(s); } SyncVar *v = sv_get((uptr)s); sync_point(54, v->ord); release_join(v); ++*(unsigned *)s; return 0; }

// ---- futex (std::future waits)
long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
    if (n == SYS_futex && in_sim()) {
        int op = (int)b & 127 & ~FUTEX_CLOCK_REALTIME;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            chk((void *)a, 4, false, PC);
            SyncVar *v = sv_get((uptr)a); sync_point(60, v->ord);
            chk((void *)a, 4, false, PC);
            if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; }
            self->st = S_FUTEX; self->obj = (void *)a; self->notified = 0; self->timedout = 0;
            if (d) { self->timed = 1; self->deadline = op == FUTEX_WAIT ? now_ns() + ts_ns((struct timespec *)d) : ts_ns((struct timespec *)d); }
            block_here();
            if (self->timedout && !self->notified) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            SyncVar *v = sv_get((uptr)a); sync_point(61, v->ord);
            int left = (int)c, n2 = 0;
            for (int i = 0; i < g.nthreads && left > 0; ++i) if (T[i].st == S_FUTEX && T[i].obj == (void *)a && !T[i].notified) { T[i].notified = 1; --left; ++n2; }
            g.step++; if (!g.cfg->replay || g.step >= g.next_slow) slow_point(true, true, false);
            return n2;
        }
    }
    long r = raw_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ---- once / guards
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    resolve_all();
    if (!in_sim()) return REAL(pthread_once)(o, fn);
    volatile u8 *st = (volatile u8 *)o;
    chk((void *)o, 4, true, PC);
    SyncVar *v = sv_get((uptr)o);
    sync_point(70, v->ord);
    for (;;) {
        chk((void *)o, 4, true, PC);
        if (*o == 2) { acquire(v); return 0; }
        if (*o == 0) break;
        self->st = S_ONCE; self->obj = (void *)o; self->obj2 = (void *)st; self->jtarget = 1; block_here();
    }
    *o = 1;
    try { fn(); } catch (...) { *o = 0; throw; }
    sync_point(71, v->ord);
    *o = 2; release_join(v);
    return 0;
}
int __cxa_guard_acquire(u64 *gd) {
    volatile u8 *b = (volatile u8 *)gd;
    if (!in_sim()) {   // static initialisation, or harness code inside NoSim
        if (b[0]) return 0;
        if (b[1] && g.active) fail_pc(PC, "harness", "NoSim code hit a one-time initialisation another thread is running");
        b[1] = 1; return 1;
    }
    SyncVar *v = sv_get((uptr)gd);
    sync_point(72, v->ord);
    for (;;) {
        if (b[0]) { acquire(v); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        if (b[2] == (u8)(self->id + 1)) fail_pc(PC, "recursive-init", "recursive one-time initialisation");
        self->st = S_ONCE; self->obj = gd; self->obj2 = (void *)(b + 1); self->jtarget = 1; block_here();
    }
}
void __cxa_guard_release(u64 *gd) {
    volatile u8 *b = (volatile u8 *)gd;
    if (!in_sim()) { b[0] = 1; b[1] = 0; if (g.active && self) release_join(sv_get((uptr)gd)); return; }
    SyncVar *v = sv_get((uptr)gd); sync_point(73, v->ord);
    b[0] = 1; b[1] = 0; b[2] = 0; release_join(v);
}
void __cxa_guard_abort(u64 *gd) { volatile u8 *b = (volatile u8 *)gd; b[1] = 0; b[2] = 0; }

// ---- time, CPUs, yielding
int sched_yield(void) { if (!in_sim()) { resolve_all(); return REAL(sched_yield)(); } g.step++; g.res->syncops++; IHASH(80, self->id, 0); slow_point(true, true, true); return 0; }
static int do_sleep(u64 until) { sync_point(81, 0); self->st = S_SLEEP; self->timed = 1; self->timedout = 0; self->deadline = until; block_here(); return 0; }
int nanosleep(const struct timespec *t, struct timespec *r) { if (!in_sim()) { resolve_all(); return REAL(nanosleep)(t, r); } return do_sleep(now_ns() + ts_ns(t)); }
int clock_nanosleep(clockid_t k, int fl, const struct timespec *t, struct timespec *r) { if (!in_sim()) { resolve_all(); return REAL(clock_nanosleep)(k, fl, t, r); } return do_sleep((fl & TIMER_ABSTIME) ? ts_ns(t) : now_ns() + ts_ns(t)); }
int usleep(useconds_t us) { if (!in_sim()) { struct timespec t = {us / 1000000, (long)(us % 1000000) * 1000}; raw_syscall(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0); return 0; } return do_sleep(now_ns() + (u64)us * 1000); }
int clock_gettime(clockid_t k, struct timespec *t) { if (!in_sim()) { resolve_all(); return REAL(clock_gettime)(k, t); } u64 n = now_ns(); t->tv_sec = (time_t)(n / 1000000000ull); t->tv_nsec = (long)(n % 1000000000ull); return 0; }
int get_nprocs(void) { if (g.active) { if (in_sim()) { IHASH(82, self->id, g.nprocs); if (g.nprocs != 4) g.res->faults[FS_NPROCS]++; } return g.nprocs; } if (!g.inited) { const char *s = getenv("SIM_NPROCS0"); g.nprocs0 = s ? atoi(s) : 4; g.inited = 1; } return g.nprocs0; }
int get_nprocs_conf(void) { return get_nprocs(); }
long sysconf(int name) { resolve_all(); if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return get_nprocs(); return REAL(sysconf)(name); }

// ---- abnormal ends
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    if (g.active) { const char *b = strrchr(f, '/'); fail_pc(PC, "assert", "assertion failed: %s (%s:%u, %s)", e, b ? b + 1 : f, l, fn); }
    fprintf(stderr, "assert %s %s:%u\n", e, f, l); raw_syscall(SYS_exit_group, 99, 0, 0, 0, 0, 0); __builtin_trap();
}
void exit(int c) {
    if (g.active && self) fail_pc(PC, "process-exit", "the process is ended by exit(%d)", c);
    resolve_all(); REAL(exit)(c); __builtin_trap();
}
void abort(void) {
    if (g.active) fail_pc(PC, "abort", "the process aborts");
    raw_syscall(SYS_exit_group, 98, 0, 0, 0, 0, 0); __builtin_trap();
}
}
namespace __gnu_cxx { void __verbose_terminate_handler(); }
[[noreturn]] static void on_terminate() {
    const char *w = "";
    char b[300]; b[0] = 0;
    if (self) self->internal++;
    try { if (std::current_exception()) throw; }
    catch (const std::exception &e) { snprintf(b, sizeof b, ": uncaught exception: %s", e.what()); w = b; }
    catch (...) { w = ": uncaught exception of unknown type"; }
    fail_pc(0, "terminate", "std::terminate called%s", w);
}
static void on_signal(int sig, siginfo_t *si, void *uc) {
    uptr pc = (uptr)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
    if (sig == SIGPROF || sig == SIGVTALRM) { char b[2000]; b[0] = 0; describe_threads(b, sizeof b); fail_pc(pc, "hang", "no progress: the run uses up its processor time without reaching its end;%s", b); }
    char rb[200];
    fail_pc(pc, "crash", "signal %d (%s), address in %s%s", sig, sig == SIGSEGV ? "segmentation fault" : sig == SIGBUS ? "bus error" : sig == SIGFPE ? "arithmetic trap" : sig == SIGILL ? "illegal instruction" : "abort",
            (uptr)si->si_addr < 4096 ? "the null page" : region((uptr)si->si_addr, rb, sizeof rb), "");
}

// ------------------------------------------------------------------ scenario API
namespace simrt {
uint32_t choice(uint32_t n) {
    RunResult *r = g.res; u32 v;
    u32 i = r->nchoices;
    if (i >= MAX_CHOICES) inconclusive("too many workload choices");
    if (g.cfg->fixed_choices) v = i < g.cfg->nchoices ? g.cfg->choices[i] : 0; else v = rnd(g.rw, n);
    if (n == 0) n = 1;
    if (v >= n) v %= n;
    r->choices[r->nchoices++] = v;
    mixh(r->whash, v + 1);
    return v;
}
uint32_t fault_rand(uint32_t n) { return g.cfg->replay ? 0 : rnd(g.rf, n); }
bool replaying() { return g.cfg->replay; }
void nosim_begin() { self->nosim++; }
void nosim_end() { self->nosim--; }
void describe(const char *fmt, ...) {
    size_t l = strlen(g.res->sample); if (l + 2 >= sizeof g.res->sample) return;
    va_list ap; va_start(ap, fmt); vsnprintf(g.res->sample + l, sizeof g.res->sample - l, fmt, ap); va_end(ap);
}
void probe(int id) { if (id >= 0 && id < MAX_PROBES) g.res->probes[id]++; }
uint64_t seq() { return ++g.seqno; }
int self_id() { return self ? self->id : -1; }
int live_threads() { int n = 0; for (int i = 0; i < g.nthreads; ++i) n += T[i].st != S_DONE; return n; }
uint32_t heap_mark() { return g.nblk; }
uint32_t leaks_since(uint32_t mark, char *buf, size_t cap) {
    u32 n = 0; size_t o = 0; if (cap) buf[0] = 0;
    for (u32 i = mark; i < g.nblk; ++i) if (BLK[i].live && !BLK[i].harness) { if (n < 4 && o + 60 < cap) { o += (size_t)snprintf(buf + o, cap - o, " #%u(%u bytes, allocated at %x)", i + 1, BLK[i].size, BLK[i].pc); } ++n; }
    return n;
}
uint64_t heap_count() { return g.res->allocs; }
void arm_alloc_nth(uint32_t n, uint32_t len) { g.a_mode = 1; g.a_n = n; g.a_len = len; }
void arm_alloc_prob(uint32_t ppm) { g.a_mode = 2; g.a_ppm = ppm; }
void disarm_alloc() { g.a_mode = 0; }
uint64_t alloc_fired() { return g.res->faults[FS_ALLOC_FAIL]; }
void arm_thread_nth(uint32_t n, uint32_t len) { g.t_on = 1; g.t_n = n; g.t_len = len; }
void disarm_thread() { g.t_on = 0; }
uint64_t thread_fired() { return g.res->faults[FS_THREAD_FAIL]; }
void set_nprocs(int n) { g.nprocs = n; }
// no shadow memory from here on: for runs of hundreds of millions of accesses (no data races are looked for, freed memory and bounds still are)
void set_light() { g.light = 1; g.race = 0; struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 80; setitimer(ITIMER_PROF, &it, nullptr); }
void enable_spurious(bool on) { g.spur_on = on; }
bool fair_mode() { return g.fair; }
void set_tolerate(const char *k) { g.tolerate = k; }
void step_point() { if (!in_sim()) return; sync_point(90, 0); }
void set_quiet_races(bool on) { g.quiet_races = on; }

static void map_at(uptr a, size_t n) {
    void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)a) { fprintf(stderr, "sim: cannot map %llx\n", (unsigned long long)a); _exit(3); }
}
void rt_process_init() {
    resolve_all(); ensure_maps();
    pthread_key_create(&endkey, thread_end);
    load_prom_ranges();
    g.inited2 = 1;
}
}
static void ensure_maps() {
    if (g.mapped) return;
    g.mapped = 1;
    g.glo = (uptr)&__data_start & ~7ull; g.ghi = ((uptr)&_end + 7) & ~7ull;
    map_at(ARENA, ARENA_SZ); map_at(STACKS, STACKS_SZ); map_at(SH_ARENA, ARENA_SZ * 8); map_at(SH_STACKS, STACKS_SZ * 8);
    map_at(SH_GLOB, (g.ghi - g.glo) * 8 + 4096); map_at(STATE, ARENA_SZ / 8); map_at(BLKIDX, ARENA_SZ / 4); map_at(ALTSTK, 32768 * MAXT);
    SV = (SyncVar *)mmap(nullptr, sizeof(SyncVar) * SVCAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    BLK = (Block *)mmap(nullptr, sizeof(Block) * (size_t)MAXBLK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g.bump = ARENA + 64;
}
namespace simrt {
static void *main_thread(void *) {
    the_body();
    end_run();
}
void rt_child_run(RunConfig *c, RunResult *r, void (*body)()) {
    g.cfg = c; g.res = r; the_body = body;
    u64 s = c->seed * 0x9e3779b97f4a7c15ull + 12345; splitmix(s);
    g.rw = splitmix(s); g.rs = splitmix(s); g.rf = splitmix(s);
    if (c->seed_sched) { u64 q = c->seed_sched * 0x2545f4914f6cdd1dull + 777; g.rs = splitmix(q); g.rf = splitmix(q); }
    r->hash = 0xcbf29ce484222325ull; r->ihash = r->hash; r->whash = r->hash;
    g.step = 0; g.cap = c->step_cap; g.fair_at = c->step_cap * 6 / 10; g.race = (int)c->race_detect; g.nprocs = 4; g.spur_on = 1;
    g.simtime = 1700000000ull * 1000000000ull;
    // draw a scheduling strategy and its parameters (swarm)
    static const u32 ps[] = {20000, 100000, 300000, 600000, 1000000};
    static const u32 geo[] = {6, 20, 60, 200, 800, 4000};
    static const u32 hot[] = {20000, 80000, 250000, 500000};
    u32 k = rnd(g.rs, 100);
    g.p_sync = ps[rnd(g.rs, 5)];
    if (k < 8) { g.strat = 0; g.p_sync = 0; }
    else if (k < 33) g.strat = 1;
    else if (k < 53) { g.strat = 2; g.geo = geo[rnd(g.rs, 6)]; geo_next(); }
    else if (k < 75) { g.strat = 3; g.pct_n = (int)rnd(g.rs, 5); u32 e = 6 + rnd(g.rs, 11); for (int i = 0; i < g.pct_n; ++i) g.pct_cp[i] = 1 + rnd(g.rs, 1u << e); g.pct_low = 1000; }
    else { g.strat = 4; g.p_hot = hot[rnd(g.rs, 4)]; }
    static const u32 sp[] = {0, 0, 5000, 50000};
    g.reuse = (int)(c->seed >> 17 & 1);
    g.p_spur = sp[rnd(g.rs, 4)]; g.p_tmo = rnd(g.rs, 3) ? 0 : 20000;
    r->strategy = (u32)g.strat;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}; for (int i = 0; i < 6; ++i) sigaction(sg[i], &sa, nullptr);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 25; setitimer(ITIMER_PROF, &it, nullptr);
    std::set_terminate(on_terminate);
    // no per-process futex table: the kernel would keep the memory of every finished run until its next grace period
    raw_syscall(SYS_prctl, 78 /* PR_FUTEX_HASH */, 1 /* PR_FUTEX_HASH_SET_SLOTS */, 0, 0, 0, 0);
    g.active = 1;
    Thread *t = new_thread(main_thread, nullptr);
    set_next_slow();
    give_baton(t);
    for (;;) raw_syscall(SYS_pause, 0, 0, 0, 0, 0, 0);
}
}  // namespace simrt
