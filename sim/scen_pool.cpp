// Thread pool scenarios: C01, C02, C04, C07, C16
#include "h.h"
#include "parallel/ThreadPool.h"
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#include <sched.h>
using pgbn::parallel::ThreadPool;

static const int MAXTASK = 48;
static TokLog g_tok[MAXTASK + 1];
TokLog &toklog(int id) { return g_tok[id < 0 || id > MAXTASK ? MAXTASK : id]; }
void toklog_reset(int) { for (auto &t : g_tok) t = TokLog(); }

namespace {
struct Rec { int runs; int tid; uint64_t start, end, sub_begin, sub_end; int accepted; };
Rec rec[MAXTASK];
int poolfirst, poollast;       // simulated thread ids of the workers
bool isworker(int t) { return t >= poolfirst && t < poollast; }
void ran(int id) {
    NoSim n; Rec &r = rec[id]; r.runs++; r.tid = self_id(); r.start = seq();
}
void done(int id) { NoSim n; rec[id].end = seq(); }

struct Cellv { int in = 0, out = 0; };       // plain caller data: the submitter writes in, the task writes out

enum Kind { K_VAL, K_VOID, K_THROW, K_ARGS, K_STR, K_REF, K_MOVE, K_NKINDS };
struct Held { int id = 0; Kind kind = K_VAL; std::future<int> fi; std::future<void> fv; std::future<std::string> fs; std::future<std::unique_ptr<int>> fu; bool have = false; bool got = false; };

void pause_some(int n) { for (int i = 0; i < n; ++i) sched_yield(); }

int body_val(int id, Cellv *c, const Tok &t, int yields) {
    ran(id); int v = t.get(); pause_some(yields); c->out = c->in * 3 + v; done(id); return 1000 + id;
}
void submit(ThreadPool &p, Held &h, int id, Kind k, Cellv *c, int yields) {
    h.id = id; h.kind = k; h.have = true;
    { NoSim n; rec[id].sub_begin = seq(); }
    c->in = 7 * id + 1;
    switch (k) {
    case K_VAL: { Tok t(id); h.fi = p.addTask([id, c, t, yields]() { return body_val(id, c, t, yields); }); break; }
    case K_VOID: { Tok t(id); h.fv = p.addTask([id, c, t, yields]() { (void)body_val(id, c, t, yields); }); break; }
    case K_THROW: { Tok t(id); h.fi = p.addTask([id, c, t, yields]() -> int { body_val(id, c, t, yields); throw Boom{id}; }); break; }
    case K_ARGS: { Tok t(id); h.fi = p.addTask([](int i, Cellv *cc, const Tok &tt, int y) { return body_val(i, cc, tt, y); }, id, c, t, yields); break; }
    case K_STR: { Tok t(id); h.fs = p.addTask([id, c, t, yields](const std::string &s) { body_val(id, c, t, yields); return s + std::to_string(id); }, std::string("result-of-task-number-")); break; }
    case K_MOVE: { Tok t(id); h.fu = p.addTask([id, c, t, yields](const std::unique_ptr<int> &u, const std::vector<int> &v) { body_val(id, c, t, yields); if (v.size() != 5 || v[4] != *u) violation("wrong-argument", "task %d got other arguments than it was submitted with", id); return std::make_unique<int>(*u + 9); }, std::make_unique<int>(id), std::vector<int>(5, id)); break; }
    default: { Tok t(id); h.fv = p.addTask([id, t, yields](Cellv &cc) { body_val(id, &cc, t, yields); }, std::ref(*c)); break; }
    }
    { NoSim n; rec[id].sub_end = seq(); rec[id].accepted = 1; }
}
void collect(Held &h, Cellv *c, bool afterdtor) {
    if (!h.have || h.got) return;
    h.got = true;
    int id = h.id; const char *when = afterdtor ? "after the pool was destroyed" : "while the pool is alive";
    if (afterdtor && is("C02")) {
        bool rdy = h.kind == K_VOID || h.kind == K_REF ? h.fv.wait_for(std::chrono::seconds(0)) == std::future_status::ready : h.kind == K_STR ? h.fs.wait_for(std::chrono::seconds(0)) == std::future_status::ready : h.kind == K_MOVE ? h.fu.wait_for(std::chrono::seconds(0)) == std::future_status::ready : h.fi.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
        if (!rdy) violation("future-not-ready", "the future of task %d is not ready after the pool was destroyed", id);
    }
    try {
        if (h.kind == K_VOID || h.kind == K_REF) h.fv.get();
        else if (h.kind == K_STR) { std::string s = h.fs.get(); if (s != "result-of-task-number-" + std::to_string(id)) violation("wrong-result", "the future of task %d delivers another value (%s)", id, s.c_str()); }
        else if (h.kind == K_MOVE) { std::unique_ptr<int> u = h.fu.get(); if (!u || *u != id + 9) violation("wrong-result", "the future of task %d delivers another value (%d)", id, u ? *u : -1); }
        else { if (!afterdtor && (id & 3) == 1) { for (int k = 0; k < 3 && h.fi.wait_for(std::chrono::milliseconds(k)) != std::future_status::ready; ++k) sched_yield(); } int v = h.fi.get(); if (h.kind == K_THROW) violation("wrong-result", "the future of task %d delivers the value %d, the task threw", id, v); if (v != 1000 + id) violation("wrong-result", "the future of task %d delivers %d instead of %d, %s", id, v, 1000 + id, when); }
        if (h.kind == K_THROW) violation("wrong-result", "the future of task %d delivers a value, the task threw", id);
    } catch (const Boom &b) {
        if (h.kind != K_THROW || b.id != id) violation("wrong-result", "the future of task %d delivers the exception of task %d", id, b.id);
    } catch (const std::exception &e) { violation("wrong-result", "the future of task %d delivers a foreign exception: %s", id, e.what()); }
    // C04: what the task wrote is visible now
    if (c->out != c->in * 3 + id) violation("lost-write", "what task %d wrote before it ended is not visible after its future was read (%d, expected %d)", id, c->out, c->in * 3 + id);
    if (rec[id].runs != 1) violation("not-once", "task %d has run %d times when its result is delivered", id, rec[id].runs);
}

void pool_mix() {
    toklog_reset(0); memset(rec, 0, sizeof rec);
    int nth = 1 + (int)choice(4), nsub = (int)choice(3), ntask = (int)choice(8), dflt = choice(6) == 0;
    bool pre = choice(2);          // read the futures before destroying the pool?
    bool drop = choice(4) == 0;    // drop the futures instead
    uint32_t mark = heap_mark(); int base = live_threads();
    std::vector<Cellv> *cells; std::vector<Held> *held;
    { NoSim n; cells = new std::vector<Cellv>(MAXTASK); held = new std::vector<Held>(MAXTASK); }
    struct Plan { Kind k; int yields; int nested; };
    Plan plan[MAXTASK]; int total = 0;
    int per[4] = {0, 0, 0, 0};
    for (int s = 0; s <= nsub; ++s) { per[s] = s == 0 ? ntask : 1 + (int)choice(4); for (int i = 0; i < per[s]; ++i, ++total) { plan[total].k = (Kind)choice(K_NKINDS); plan[total].yields = choice(3) == 0 ? 1 + (int)choice(3) : 0; plan[total].nested = 0; } }
    int nestedmax = choice(3) == 0 ? 1 + (int)choice(3) : 0, firstnested = total;
    describe("pool of %d%s threads, %d tasks from the main thread, %d other submitters, %d tasks submit further tasks, futures %s", nth, dflt ? " (default size)" : "", ntask, nsub, nestedmax, drop ? "dropped" : pre ? "read before destruction" : "read after destruction");
    std::atomic<int> nestedleft{nestedmax}; 
    poolfirst = 1; poollast = 1;
    uint64_t destroyed;
    {
        std::unique_ptr<ThreadPool> p;
        // the workers are the threads created between these two points
        int before = live_threads();
        p.reset(dflt ? new ThreadPool() : new ThreadPool((std::size_t)nth));
        (void)before; poolfirst = 1; poollast = 64;
        std::vector<HThread> subs;
        int off = per[0];
        int mainlo = 0;
        static int submitter_ids[4]; for (int &x : submitter_ids) x = -1;
        for (int s = 1; s <= nsub; ++s) {
            int lo = off, n = per[s]; off += n;
            subs.emplace_back([&, lo, n, s]() {
                { NoSim z; submitter_ids[s] = self_id(); }
                for (int i = lo; i < lo + n; ++i) submit(*p, (*held)[(size_t)i], i, plan[i].k, &(*cells)[(size_t)i], plan[i].yields);
            });
        }
        for (int i = mainlo; i < per[0]; ++i) submit(*p, (*held)[(size_t)i], i, plan[i].k, &(*cells)[(size_t)i], plan[i].yields);
        // tasks that submit tasks: the pool is alive until they are done
        std::vector<std::future<void>> outer;
        for (int i = 0; i < nestedmax; ++i) {
            int id = firstnested + i;
            outer.push_back(p->addTask([&, id]() { submit(*p, (*held)[(size_t)id], id, (Kind)(id % K_NKINDS), &(*cells)[(size_t)id], 0); }));
        }
        for (auto &f : outer) f.get();
        for (auto &t : subs) t.join();
        total += nestedmax;
        if (pre && !drop) for (int i = 0; i < total; ++i) collect((*held)[(size_t)i], &(*cells)[(size_t)i], false);
        if (drop) for (int i = 0; i < total; ++i) if (choice(2)) { (*held)[(size_t)i] = Held(); }
        if (is("C01") || is("C04")) set_tolerate("hang");     // how destruction ends is C02's matter
        outer.clear();
        p.reset();
        set_tolerate(nullptr);
        { NoSim z; destroyed = seq(); }
        for (int i = 0; i < total; ++i) for (int s = 0; s < 4; ++s) if (rec[i].runs && (rec[i].tid == submitter_ids[s])) violation("wrong-thread", "task %d ran on the thread of a submitter", i);
    }
    for (int i = 0; i < total; ++i) {
        if (rec[i].tid == 0 && rec[i].runs) violation("wrong-thread", "task %d ran on the main thread", i);
        if (rec[i].runs != 1) violation("not-once", "task %d has run %d times when the pool is destroyed", i, rec[i].runs);
        if (!rec[i].end || rec[i].end > destroyed) violation("not-drained", "task %d had not ended when the destruction of the pool completed", i);
    }
    if (is("C01") && nth == 1 && !dflt)
        for (int i = 0; i < total; ++i) for (int j = 0; j < total; ++j)
            if (rec[i].sub_end < rec[j].sub_begin && rec[i].start > rec[j].start) violation("order", "a pool with one thread ran task %d before task %d although task %d had been accepted first", j, i, i);
    for (int i = 0; i < total; ++i) collect((*held)[(size_t)i], &(*cells)[(size_t)i], true);
    for (int i = 0; i < total; ++i) if ((*cells)[(size_t)i].out != (*cells)[(size_t)i].in * 3 + i) violation("lost-write", "what task %d wrote is not visible after the pool was destroyed", i);
    { for (auto &h : *held) h = Held(); }
    if (is("C16")) {
        for (int i = 0; i < total; ++i) {
            if (g_tok[i].made != g_tok[i].gone) violation("leak", "%d copies of the object captured by task %d were made and %d destroyed", g_tok[i].made, i, g_tok[i].gone);
        }
        check_threads(base, "pool destroyed");
        { NoSim n; delete cells; delete held; }
        check_leaks(mark, "pool destroyed and futures dropped");
    }
    probe(0); if (total > nth) probe(1); if (nestedmax) probe(2);
}

// n tasks in progress at the same time
void pool_parallel() {
    int nth = choice(10) == 0 ? (choice(3) ? 6 + (int)choice(20) : 26 + (int)choice(34)) : 1 + (int)choice(5), rounds = 1 + (int)choice(2), spin = choice(2), dflt = choice(5) == 0;
    int n = nth;
    if (dflt) { n = (int)pgbn::parallel::kDefaultNThreads; if (n < 1) n = 1; if (n > 8) n = 8; }
    describe("%d tasks that wait for each other (%s) on a pool of %d threads%s, %d rounds", n, spin ? "spinning" : "condition variable", n, dflt ? " (default size)" : "", rounds);
    std::mutex m; std::condition_variable cv; int arrived = 0; std::atomic<int> arr{0};
    std::unique_ptr<ThreadPool> p(dflt ? new ThreadPool() : new ThreadPool((std::size_t)nth));
    for (int r = 0; r < rounds; ++r) {
        int goal = (r + 1) * n;
        std::vector<std::future<int>> fs;
        if (choice(3) == 0) sched_yield();
        for (int i = 0; i < n; ++i)
            fs.push_back(p->addTask([&, i, goal]() {
                if (spin) { arr++; while (arr.load() < goal) sched_yield(); }
                else { std::unique_lock<std::mutex> l(m); ++arrived; cv.notify_all(); cv.wait(l, [&] { return arrived >= goal; }); }
                return i;
            }));
        bool early = r + 1 == rounds && choice(2);
        if (early) { p.reset(); }
        for (int i = 0; i < n; ++i) {
            if (early && fs[(size_t)i].wait_for(std::chrono::seconds(0)) != std::future_status::ready) violation("future-not-ready", "the future of task %d is not ready after the pool was destroyed", i);
            if (fs[(size_t)i].get() != i) violation("wrong-result", "task %d: wrong result", i);
        }
    }
    p.reset(); probe(3);
}

// many tasks, larger pools
void pool_many(bool flood = false) {
    if (flood) set_light();
    int nth = choice(3) == 0 ? 1 : 2 + (int)choice(15), nsub = (int)choice(3), per = flood ? (choice(4) ? 1000 + (int)choice(2500) : (65600 + (int)choice(3000)) / (nsub + 1)) : 20 + (int)choice(nth > 4 ? 60 : 120), total = per * (nsub + 1);
    bool early = choice(2), thrower = choice(2);
    describe("pool of %d threads, %d submitters, %d tasks each%s%s", nth, nsub + 1, per, early ? ", futures read after destruction" : "", thrower ? ", every 7th throws" : "");
    struct R { int runs, order, tid; }; R *r; { NoSim n; r = new R[total](); }
    std::atomic<int> order{0}; int base = live_threads(); uint32_t mark = heap_mark();
    {
        std::vector<std::future<int>> fs((size_t)total);
        auto p = std::make_unique<ThreadPool>((std::size_t)nth);
        auto feed = [&](int lo) { for (int i = lo; i < lo + per; ++i) fs[(size_t)i] = p->addTask([&, i](int a, const std::string &b) { { NoSim n; r[i].runs++; r[i].tid = self_id(); } r[i].order = order++; if (thrower && i % 7 == 3) throw Boom{i}; return a + (int)b.size(); }, i, std::string((size_t)(i % 40), 'x')); };
        std::vector<HThread> ts; for (int s = 1; s <= nsub; ++s) ts.emplace_back([&, s] { feed(s * per); });
        feed(0);
        for (auto &t : ts) t.join();
        if (early) p.reset();
        for (int i = 0; i < total; ++i) {
            if (early && fs[(size_t)i].wait_for(std::chrono::seconds(0)) != std::future_status::ready) violation("future-not-ready", "the future of task %d is not ready after the pool was destroyed", i);
            try { int v = fs[(size_t)i].get(); if ((thrower && i % 7 == 3) || v != i + i % 40) violation("wrong-result", "the future of task %d delivers %d", i, v); }
            catch (const Boom &b) { if (!thrower || i % 7 != 3 || b.id != i) violation("wrong-result", "the future of task %d delivers the exception of task %d", i, b.id); }
        }
        p.reset();
        for (int i = 0; i < total; ++i) if (r[i].tid == self_id()) violation("wrong-thread", "task %d ran on the thread that submits", i); else if (r[i].runs != 1) violation("not-once", "task %d of %d has run %d times when the pool is destroyed", i, total, r[i].runs);
        if (nth == 1) for (int s = 0; s <= nsub; ++s) for (int i = s * per + 1; i < (s + 1) * per; ++i) if (r[i].order < r[i - 1].order) violation("order", "a pool with one thread ran task %d before task %d although that had been accepted first", i, i - 1);
    }
    check_threads(base, "pool destroyed");
    if (is("C16")) check_leaks(mark, "pool destroyed and futures dropped");
    probe(7);
}

// a task has a pool of its own, whose tasks wait for each other
void inner_pool() {
    std::atomic<int> a{0}; int me = self_id(); ThreadPool q(2);
    auto f = q.addTask([&] { if (self_id() == me) violation("wrong-thread", "a task of a pool made inside a task ran on the thread that submitted it"); a++; while (a.load() < 2) sched_yield(); return 1; });
    auto g = q.addTask([&] { a++; while (a.load() < 2) sched_yield(); return 2; });
    if (f.get() + g.get() != 3) violation("wrong-result", "a pool made inside a task gives wrong results");
}
struct Late { std::future<int> f; int ran = 0; bool sent = false, ready = false; };

// submissions that fail: memory runs out inside addTask, or the callable cannot be copied
struct Uncopyable { int id; bool bomb; Tok t; Uncopyable(int i, bool b) : id(i), bomb(b), t(i) {} Uncopyable(const Uncopyable &o) : id(o.id), bomb(o.bomb), t(o.t) { if (bomb) throw Boom{o.id}; } Uncopyable(Uncopyable &&o) : id(o.id), bomb(o.bomb), t(o.t) {} int operator()(int x) { { NoSim n; rec[id].runs++; rec[id].tid = self_id(); } return x + id + t.get(); } };
void pool_addfail() {
    toklog_reset(0); memset(rec, 0, sizeof rec);
    int nth = 1 + (int)choice(3), nt = 1 + (int)choice(10); uint32_t way = choice(3), k = 1 + choice(12), len = 1 + choice(3), at = choice((uint32_t)nt);
    describe("pool of %d threads, %d tasks, submission %u fails (%s)", nth, nt, at, way == 0 ? "the callable throws when copied" : "no memory");
    uint32_t mark = heap_mark(); int base = live_threads(), me = self_id(), refused = 0;
    {
        std::vector<std::future<int>> fs; fs.reserve((size_t)nt + 1); std::vector<int> ids; ids.reserve((size_t)nt + 1);
        auto p = std::make_unique<ThreadPool>((std::size_t)nth);
        for (int i = 0; i < nt; ++i) {
            bool fail = i == (int)at;
            Uncopyable u(i, fail && way == 0);
            if (fail && way) arm_alloc_nth(k, len);
            try { auto f = choice(2) ? p->addTask(u, 100) : p->addTask(std::move(u), 100); disarm_alloc(); fs.push_back(std::move(f)); ids.push_back(i); }
            catch (const Boom &b) { disarm_alloc(); ++refused; if (!fail || way != 0 || b.id != i) violation("exception", "submitting task %d throws the exception of task %d", i, b.id); }
            catch (const std::bad_alloc &) { disarm_alloc(); ++refused; if (!fail || way == 0) violation("exception", "submitting task %d throws bad_alloc", i); }
            if (choice(4) == 0) sched_yield();
        }
        bool early = choice(2); if (early) p.reset();
        for (size_t j = 0; j < fs.size(); ++j) { int v = fs[j].get(); if (v != 100 + 2 * ids[j]) violation("wrong-result", "the future of task %d delivers %d", ids[j], v); if (rec[ids[j]].runs != 1 || rec[ids[j]].tid == me) violation("not-once", "task %d has run %d times (on thread %d)", ids[j], rec[ids[j]].runs, rec[ids[j]].tid); }
        p.reset();
        for (int i = 0; i < nt; ++i) { bool acc = false; for (int j : ids) acc |= i == j; if (!acc && rec[i].runs) violation("not-once", "task %d, whose submission threw, has run", i); }
    }
    for (int i = 0; i < nt; ++i) if (g_tok[i].made != g_tok[i].gone) violation("leak", "%d copies of the object captured by task %d were made and %d destroyed", g_tok[i].made, i, g_tok[i].gone);
    check_threads(base, "pool destroyed");
    if (is("C16")) check_leaks(mark, "pool destroyed and futures dropped");
    if (refused) probe(9); probe(8);
}

// pools destroyed right after construction, right after submission, from another thread, one after another
void pool_destroy() {
    int k = 1 + (int)choice(3);
    uint32_t inner = choice(4);       // tasks that use a pool of their own; tasks that submit to the pool while it is being destroyed
#ifdef PGBN_DEBUG
    if (inner == 2) inner = 0;                                     // refused by an assertion in this build
#endif
    describe("pools destroyed at arbitrary moments%s:", inner == 1 ? ", a task uses a pool of its own" : inner == 2 ? ", a task submits whenever it runs" : "");
    uint32_t mark = heap_mark(); int base = live_threads();
    for (int i = 0; i < k; ++i) {
        int nth = 1 + (int)choice(4), nt = (int)choice(5), y = (int)choice(4), other = choice(4) == 0; 
        describe(" [%d threads, %d tasks, %d yields%s]", nth, nt, y, other ? ", destroyed by another thread" : "");
        int ran_[8]; for (int &x : ran_) x = 0;
        std::vector<std::future<void>> fs; Late late;
        {
            auto p = std::make_unique<ThreadPool>((std::size_t)nth);
            ThreadPool *pp = p.get();
            for (int t = 0; t < nt; ++t) fs.push_back(p->addTask([&ran_, &late, pp, inner, t, y]() {
                if (t & 1) pause_some(y);
                if (t == 1 && inner == 1) inner_pool();
                if (t == 0 && inner == 2) { late.f = pp->addTask([&late]() { { NoSim n; late.ran++; } return 55; }); late.sent = true; late.ready = late.f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; }
                ran_[t]++; if (t == 3) throw Boom{t}; }));
            pause_some(y);
            if (other) { HThread h([&p]() { p.reset(); }); h.join(); }
        }
        for (int t = 0; t < nt; ++t) {
            if (ran_[t] != 1) violation("not-drained", "task %d of %d had run %d times when the destruction of the pool completed", t, nt, ran_[t]);
            if (fs[(size_t)t].wait_for(std::chrono::seconds(0)) != std::future_status::ready) violation("future-not-ready", "the future of task %d is not ready after the pool was destroyed", t);
            try { fs[(size_t)t].get(); if (t == 3) violation("wrong-result", "task 3 threw, its future delivers no exception"); }
            catch (const Boom &b) { if (b.id != t || t != 3) violation("wrong-result", "foreign exception"); }
        }
        if (late.sent) {
            if (late.f.wait_for(std::chrono::seconds(0)) != std::future_status::ready) violation("future-not-ready", "the future of a task submitted by a task is not ready after the pool was destroyed");
            try { int v = late.f.get(); if (v != 55 || late.ran != 1) violation("not-once", "a task submitted by a task has run %d times and delivers %d", late.ran, v); }
            catch (const std::future_error &) { if (late.ran) violation("not-once", "a refused task has run"); if (!late.ready) violation("not-drained", "a task that was accepted from another task has been dropped"); }
        }
        check_threads(base, "pool destroyed");
    }
    if (is("C16")) check_leaks(mark, "pool destroyed and futures dropped");
    probe(4);
}

// several pools at the same time: tasks of one submit to (and wait for) another, pools are created and destroyed by each other's tasks
thread_local int tl_pool = 0;
void pool_pair() {
    const int MT = 64;
    struct R { int runs, ended, pool, tid, sub; }; R *r; { NoSim n; r = new R[MT](); }
    int np = 2 + (int)choice(2), n[3], m[3], total = 0, plan[MT], to[MT], where[MT], y[MT], rend = (int)choice(3), first[3];
    int mk[3], by[3], order[3] = {0, 1, 2};
    for (int i = 0; i < np; ++i) { n[i] = 1 + (int)choice(3); m[i] = (int)choice(5); first[i] = total; mk[i] = i ? (int)choice(3) : 0; by[i] = (int)choice(3);
        for (int k = 0; k < m[i]; ++k, ++total) { where[total] = i; plan[total] = (int)choice(4); to[total] = (int)choice((uint32_t)np); y[total] = choice(4) == 0 ? 1 + (int)choice(3) : 0; } }
    for (int i = np - 1; i > 0; --i) { int j = (int)choice((uint32_t)i + 1); std::swap(order[i], order[j]); }
    describe("%d pools at the same time (%d, %d, %d threads; %d, %d, %d tasks), tasks that submit to other pools%s", np, n[0], n[1], np > 2 ? n[2] : 0, m[0], m[1], np > 2 ? m[2] : 0, rend ? ", tasks of all pools wait for each other" : "");
    uint32_t mark = heap_mark(); int base = live_threads();
    auto body = [r](int id, int pool, int yields) {
        if (tl_pool && tl_pool != pool + 1) violation("wrong-thread", "task %d of pool %d ran on a thread that has run tasks of pool %d", id, pool, tl_pool - 1);
        tl_pool = pool + 1;
        { NoSim z; r[id].runs++; r[id].pool = pool; r[id].tid = self_id(); }
        pause_some(yields);
        { NoSim z; r[id].ended++; }
        return 100 * id + pool;
    };
    {
        std::unique_ptr<ThreadPool> p[3];
        std::vector<std::future<int>> fs((size_t)MT); std::vector<std::future<void>> outer((size_t)MT);
        for (int i = 0; i < np; ++i) {
            if (mk[i] == 2) p[choice((uint32_t)i)]->addTask([&p, &n, i] { p[i].reset(new ThreadPool((std::size_t)n[i])); }).get();
            else p[i].reset(new ThreadPool((std::size_t)n[i]));
        }
        if (rend) {
            std::mutex mu; std::condition_variable cv; int arrived = 0, all = 0; std::vector<std::future<void>> rf;
            for (int i = 0; i < np; ++i) all += n[i];
            for (int k = 0; k < 3; ++k) for (int i = 0; i < np; ++i) if (k < n[i]) rf.push_back(p[i]->addTask([&, all] { std::unique_lock<std::mutex> l(mu); ++arrived; if (rend == 1) { cv.notify_all(); cv.wait(l, [&] { return arrived >= all; }); } else while (arrived < all) { l.unlock(); sched_yield(); l.lock(); } }));
            for (auto &f : rf) f.get();
        }
        for (int id = 0; id < total; ++id) {
            int w = where[id], t = to[id], pl = plan[id], in = MT / 2 + id, yy = y[id];
            if (pl < 2) { fs[(size_t)id] = p[w]->addTask(body, id, w, yy); continue; }
            outer[(size_t)id] = p[w]->addTask([&, id, w, t, pl, in, yy] {
                body(id, w, yy);
                { NoSim z; r[in].sub = self_id() + 1; }
                fs[(size_t)in] = p[t]->addTask(body, in, t, yy ? 0 : 1);
                if (pl == 3 && t > w) { int v = fs[(size_t)in].get(); if (v != 100 * in + t) violation("wrong-result", "the future of a task given to another pool delivers %d", v); if (r[in].tid == self_id()) violation("wrong-thread", "a task given to another pool ran on the thread that submitted it"); }
            });
        }
        for (auto &f : outer) if (f.valid()) f.get();
        for (int i = 0; i < np; ++i) {
            int d = order[i]; bool last = i == np - 1;
            if (by[i] == 2 && !last) p[order[i + 1]]->addTask([&p, d] { p[d].reset(); }).get();
            else if (by[i] == 1) { HThread h([&p, d] { p[d].reset(); }); h.join(); }
            else p[d].reset();
            for (int id = 0; id < MT; ++id) {
                bool mine = id < total ? where[id] == d : id >= MT / 2 && id - MT / 2 < total && plan[id - MT / 2] >= 2 && to[id - MT / 2] == d;
                if (mine && (r[id].runs != 1 || r[id].ended != 1)) violation("not-drained", "task %d of pool %d has been started %d times and has ended %d times when its pool has been destroyed", id, d, r[id].runs, r[id].ended);
            }
        }
        for (int id = 0; id < MT; ++id) if (fs[(size_t)id].valid()) {
            if (fs[(size_t)id].wait_for(std::chrono::seconds(0)) != std::future_status::ready) violation("future-not-ready", "the future of task %d is not ready after its pool was destroyed", id);
            int v = fs[(size_t)id].get(); if (v != 100 * id + r[id].pool) violation("wrong-result", "the future of task %d delivers %d", id, v);
        }
    }
    for (int id = 0; id < MT; ++id) if (r[id].runs && r[id].tid == self_id()) violation("wrong-thread", "task %d ran on the main thread", id);
    check_threads(base, "all pools destroyed");
    if (is("C16")) check_leaks(mark, "all pools destroyed and futures dropped");
    probe(39);
}

// thread creation fails inside the constructor
void pool_threadfail() {
    int nth = 1 + (int)choice(5); int at = 1 + (int)choice((uint32_t)nth), len = 1 + (int)choice(3);
    bool none = choice(5) == 0;
    describe("pool of %d threads, creation of thread %d%s fails", nth, at, len > 1 ? " and the following ones" : "");
    uint32_t mark = heap_mark(); int base = live_threads();
    if (!none) arm_thread_nth((uint32_t)at, (uint32_t)len);
    bool threw = false;
    try {
        ThreadPool p((std::size_t)nth);
        disarm_thread();
        auto f = p.addTask([](int a, int b) { return a + b; }, 20, 22);
        if (f.get() != 42) violation("wrong-result", "a task on a pool whose construction met a refused thread gives a wrong result");
    } catch (const std::exception &) { threw = true; }
    disarm_thread();
    if (none && threw) violation("exception", "pool construction throws although no thread was refused");
    if (thread_fired()) probe(5);
    check_threads(base, threw ? "pool construction failed" : "pool destroyed");
    check_leaks(mark, threw ? "pool construction failed" : "pool destroyed");
    { ThreadPool q(2); auto f = q.addTask([]() { return 7; }); if (f.get() != 7) violation("wrong-result", "a later pool gives a wrong result"); }
    check_threads(base, "later pool destroyed");
}

// a default pool runs its tasks whatever the CPU count was when the program started
void pool_default() {
    describe("default pool on a machine reporting %u CPUs at start", (unsigned)pgbn::parallel::kDefaultNThreads);
    int n = 1 + (int)choice(4); set_nprocs((int)choice(3));
    uint32_t mark = heap_mark(); int base = live_threads();
    {
        ThreadPool p; std::vector<std::future<int>> fs;
        for (int i = 0; i < n; ++i) fs.push_back(p.addTask([i]() { return i * i; }));
        if (choice(2)) for (int i = 0; i < n; ++i) if (fs[(size_t)i].get() != i * i) violation("wrong-result", "task %d: wrong result", i);
    }
    check_threads(base, "default pool destroyed"); check_leaks(mark, "default pool destroyed");
    probe(6);
}
}  // namespace

static const uint64_t CAP = 400000;
SCENARIO("C01", pool_mix_01, 10, CAP, false) { pool_mix(); }
SCENARIO("C01", pool_many_01, 1, 4000000, false) { pool_many(); }
SCENARIO("C01", pool_flood_01, 1, 1500000000, false) { if (choice(6)) pool_many(); else pool_many(true); }
SCENARIO("C01", pool_pair_01, 3, CAP, false) { pool_pair(); }
SCENARIO("C02", pool_pair_02, 2, CAP, false) { pool_pair(); }
SCENARIO("C16", pool_pair_16, 1, CAP, false) { pool_pair(); }
SCENARIO("C04", pool_pair_04, 2, CAP, true) { pool_pair(); }
SCENARIO("C01", pool_addfail_01, 3, CAP, false) { pool_addfail(); }
SCENARIO("C16", pool_addfail_16, 2, CAP, false) { pool_addfail(); }
SCENARIO("C02", pool_many_02, 1, 4000000, false) { pool_many(); }
SCENARIO("C02", pool_mix_02, 5, CAP, false) { pool_mix(); }
SCENARIO("C02", pool_parallel_02, 4, CAP, false) { pool_parallel(); }
SCENARIO("C01", pool_destroy_01, 2, CAP, false) { set_tolerate("hang"); pool_destroy(); }
SCENARIO("C02", pool_destroy_02, 6, CAP, false) { pool_destroy(); }
SCENARIO("C04", pool_mix_04, 6, CAP, true) { pool_mix(); }
SCENARIO("C04", pool_destroy_04, 3, CAP, true) { pool_destroy(); }
SCENARIO("C07", pool_threadfail_07, 5, CAP, false) { pool_threadfail(); }
SCENARIO("C07", pool_default_07, 3, CAP, false) { pool_default(); }
SCENARIO("C16", pool_mix_16, 4, CAP, false) { pool_mix(); }
SCENARIO("C16", pool_destroy_16, 2, CAP, false) { pool_destroy(); }
SCENARIO("C16", pool_threadfail_16, 1, CAP, false) { pool_threadfail(); }
