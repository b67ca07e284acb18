// Deterministic simulation runtime: interface.
// The runtime (rt.cpp) owns every source of nondeterminism of the simulated program:
// which thread runs (at every instrumented memory access, atomic, lock, wait, wake, thread start,
// join, allocation), which waiter a notify wakes, spurious wake-ups, clocks, thread-creation
// failure, CPU count, allocation failure.
#pragma once
#include <cstddef>
#include <cstdint>

namespace simrt {

// ---- shared between a worker process and the forked child that executes one run ----
enum TraceKind : uint8_t { TK_SWITCH = 1, TK_WAKE = 2, TK_SPURIOUS = 3, TK_TIMEOUT = 4, TK_ALLOC_FAIL = 5, TK_THREAD_FAIL = 6 };
struct TraceEntry { uint64_t step; uint32_t kind; uint32_t val; };

enum FaultStat {
    FS_PREEMPT = 0,     // involuntary context switch at a memory access / sync operation
    FS_SPURIOUS_COND,   // spurious condition-variable wake-up
    FS_SPURIOUS_FUTEX,  // spurious futex wake-up
    FS_WAKE_CHOICE,     // a notify had several waiters to choose from
    FS_ALLOC_FAIL,      // failed allocation
    FS_THREAD_FAIL,     // failed thread creation
    FS_NPROCS,          // CPU count reported as something else than the default
    FS_TIMEOUT,         // early timeout (clock jump)
    FS_FAIR,            // run had to be finished in fair mode
    FS_COUNT
};

constexpr uint32_t MAX_TRACE = 1u << 20;
constexpr uint32_t MAX_CHOICES = 1u << 16;
constexpr int MAX_PROBES = 96;

struct RunConfig {
    uint64_t seed;            // everything random in a searching run derives from this
    uint64_t seed_sched;      // != 0: schedule/fault stream seed differs from `seed` (minimiser)
    uint32_t replay;          // 1: decisions come from `trace`, nothing is random
    uint32_t fixed_choices;   // 1: workload choices come from `choices` (missing ones are 0)
    uint32_t race_detect;
    uint32_t stealth;         // unused padding
    uint64_t step_cap;
    uint32_t ntrace;
    uint32_t nchoices;
    TraceEntry trace[MAX_TRACE];
    uint32_t choices[MAX_CHOICES];
};

struct RunResult {
    uint32_t finished;        // the child got to the end (pass or violation)
    uint32_t violated;
    uint32_t inconclusive;    // a simulator limit was hit: neither pass nor violation
    uint32_t strategy;
    char kind[64];            // violation class
    char detail[6000];
    uint64_t steps, switches, syncops, allocs;
    uint64_t hash;            // everything that happened, addresses included
    uint64_t ihash;           // interleaving of synchronisation events and context switches
    uint64_t whash;           // workload choices
    uint64_t simtime_ns;
    uint32_t threads;
    uint64_t faults[FS_COUNT];
    uint64_t probes[MAX_PROBES];
    char sample[1200];        // human-readable description of the workload
    uint32_t nstack;
    uint64_t stack[48];       // pcs of the violating thread
    uint32_t nstack2;
    uint64_t stack2[4];
    uint32_t ntrace;
    uint32_t nchoices;
    uint32_t trace_overflow;
    TraceEntry trace[MAX_TRACE];
    uint32_t choices[MAX_CHOICES];
};

// ---- driver side ----
void rt_process_init();                       // once per worker process, before any run
void rt_child_run(RunConfig *c, RunResult *r, void (*body)());  // never returns; called in the forked child

// ---- scenario side (inside a simulated thread) ----
uint32_t choice(uint32_t n);                  // recorded workload choice in [0,n)
inline uint32_t choice_range(uint32_t lo, uint32_t hi) { return lo + choice(hi - lo + 1); }
uint32_t fault_rand(uint32_t n);              // unrecorded, from the fault stream; 0 in replay
bool replaying();
void nosim_begin();
void nosim_end();
struct NoSim { NoSim() { nosim_begin(); } ~NoSim() { nosim_end(); } NoSim(const NoSim&) = delete; };
[[noreturn]] void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void inconclusive(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void describe(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // appended to the run's sample text
void probe(int id);
uint64_t seq();                               // global event sequence number (a fresh one per call)
int self_id();
int live_threads();                           // simulated threads not yet ended, the caller included
uint32_t heap_mark();
uint32_t leaks_since(uint32_t mark, char *buf, size_t cap);  // live non-harness blocks allocated since mark
uint64_t heap_count();                        // allocations so far (all, non-harness)
void arm_alloc_nth(uint32_t n, uint32_t len); // the n-th (1-based) allocation from now fails, and len-1 more
void arm_alloc_prob(uint32_t ppm);
void disarm_alloc();
uint64_t alloc_fired();                       // allocation failures so far
void arm_thread_nth(uint32_t n, uint32_t len);
void disarm_thread();
uint64_t thread_fired();
void set_nprocs(int n);
void set_light();                  // give up race detection in this run, for speed (huge workloads)
void enable_spurious(bool on);
bool fair_mode();
void set_tolerate(const char *kinds);           // verdicts of these kinds (space separated) end the run without a verdict
void step_point();                            // explicit preemption point
void set_quiet_races(bool on);                // turn race reports off/on

}  // namespace simrt
