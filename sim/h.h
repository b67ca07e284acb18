// Helpers shared by the scenarios.
#pragma once
#include "scen.h"
#include <cstring>
#include <exception>
#include <functional>
#include <string>
#include <thread>
#include <vector>

using namespace simrt;

inline bool is(const char *p) { return !strcmp(current_prop(), p); }

// an exception type the library cannot know
struct Boom { int id; };

// an object whose lifetime is counted: captured by tasks and passed through queues
struct TokLog { int made = 0, gone = 0; uint64_t lastgone = 0; };
TokLog &toklog(int id);
void toklog_reset(int n);
struct Tok {
    int id; int *heap; bool live = true;
    explicit Tok(int i) : id(i), heap(new int(i)) { NoSim n; toklog(id).made++; }
    Tok(const Tok &o) : id(o.id), heap(new int(*o.heap)) { NoSim n; toklog(id).made++; }
    Tok(Tok &&o) noexcept : id(o.id), heap(o.heap) { o.heap = nullptr; NoSim n; toklog(id).made++; }
    Tok &operator=(const Tok &) = delete;
    ~Tok() { bool was = live; live = false; delete heap; heap = nullptr; NoSim n; toklog(id).gone++; toklog(id).lastgone = seq(); if (!was) violation("double-destroy", "an object handed to a task is destroyed twice (task %d)", id); }
    int get() const { if (!live || !heap) violation("use-after-destroy", "task %d uses its captured object after that object was destroyed or moved away", id); return *heap; }
};

// run f, turning whatever escapes into a violation
template <class F> void guarded(const char *what, F f) {
    try { f(); }
    catch (const Boom &b) { violation("exception", "%s: unexpected exception Boom(%d)", what, b.id); }
    catch (const std::exception &e) { violation("exception", "%s: unexpected exception: %s", what, e.what()); }
    catch (...) { violation("exception", "%s: unexpected exception", what); }
}
// a harness thread
struct HThread {
    std::thread t;
    template <class F> explicit HThread(F f) : t([f]() { guarded("user thread", f); }) {}
    void join() { t.join(); }
};
inline void check_leaks(uint32_t mark, const char *what) {
    char b[300]; uint32_t n = leaks_since(mark, b, sizeof b);
    if (n) violation("leak", "%s: %u heap block(s) left behind:%s", what, n, b);
}
inline void check_threads(int base, const char *what) {
    int n = live_threads();
    if (n > base) violation("thread-left", "%s: %d thread(s) still running", what, n - base);
}
