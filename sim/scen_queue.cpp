// Concurrent queue scenarios: C03 (linearizability, wake-ups), C04 (hand-off)
#include "h.h"
#include "parallel/SimpleConcurrenceQueue.h"
#include <atomic>
#include <list>
#include <map>
#include <memory>
#include <sched.h>
#include <set>
#include <unordered_set>
using pgbn::parallel::SimpleConcurrenceQueue;

namespace {
// what is queued: an id with a private heap part (so that a stale or half-moved item is noticed)
struct Item {
    int id = -1; std::vector<int> body;
    Item() = default;
    explicit Item(int i) : id(i), body(3, i) {}
    Item(const Item &) = default; Item &operator=(const Item &) = default;
    Item(Item &&o) noexcept : id(o.id), body(std::move(o.body)) { o.id = -2; }
    Item &operator=(Item &&o) noexcept { id = o.id; body = std::move(o.body); o.id = -2; return *this; }
    int check() const { for (int x : body) if (x != id) return -3; return body.size() == 3 ? id : -4; }
};
enum OpK { PUSH, PUSH_REFUSED, TRYPOP, POP, EMPTY, COPY, RELEASE, FAILED };
const char *opname[] = {"push", "refused push", "try-pop", "pop", "empty", "copy", "wake-all", "failed operation"};
struct Op { OpK k; int thread; int arg; int res; std::vector<int> snap; uint64_t inv, ret; int conds, errs; };
struct Hist {
    std::vector<Op> ops;
    size_t begin(OpK k, int arg) { NoSim n; Op o; o.k = k; o.thread = self_id(); o.arg = arg; o.res = 0; o.inv = seq(); o.ret = ~0ull; o.conds = o.errs = 0; ops.push_back(o); return ops.size() - 1; }
    void end(size_t i, int res) { NoSim n; ops[i].res = res; ops[i].ret = seq(); }
    std::string str() { std::string s; char b[100]; for (auto &o : ops) { snprintf(b, sizeof b, " [t%d %s", o.thread, opname[o.k]); s += b; if (o.k == PUSH || o.k == PUSH_REFUSED) s += " " + std::to_string(o.arg); else if (o.ret != ~0ull && (o.k == TRYPOP || o.k == POP || o.k == EMPTY)) s += " -> " + std::to_string(o.res); if (o.k == COPY) { s += " -> {"; for (int x : o.snap) s += std::to_string(x) + " "; s += "}"; } s += o.ret == ~0ull ? " unfinished]" : " " + std::to_string(o.inv) + "-" + std::to_string(o.ret) + "]"; } return s; }
};
// Wing & Gong search with memoisation
struct Lin {
    std::vector<Op> &ops; std::unordered_set<std::string> seen; uint64_t nodes = 0;
    explicit Lin(std::vector<Op> &o) : ops(o) {}
    bool go(uint64_t donemask, std::vector<int> &q, bool rel) {
        if (donemask + 1 == (1ull << ops.size())) return true;
        if (++nodes > 2000000) return true;      // give up: no verdict
        std::string key((const char *)&donemask, 8); key.push_back(rel); key.append((const char *)q.data(), q.size() * sizeof(int));
        if (!seen.insert(key).second) return false;
        uint64_t minret = ~0ull;
        for (size_t i = 0; i < ops.size(); ++i) if (!(donemask >> i & 1) && ops[i].ret < minret) minret = ops[i].ret;
        for (size_t i = 0; i < ops.size(); ++i) {
            if (donemask >> i & 1 || ops[i].inv > minret) continue;
            Op &o = ops[i]; uint64_t nm = donemask | 1ull << i;
            switch (o.k) {
            case PUSH: { q.push_back(o.arg); bool r = go(nm, q, rel); q.pop_back(); if (r) return true; break; }
            case PUSH_REFUSED: if (go(nm, q, rel)) return true; break;
            case EMPTY: if (o.res == (int)q.empty() && go(nm, q, rel)) return true; break;
            case COPY: if (o.snap == q && go(nm, q, rel)) return true; break;
            case RELEASE: if (go(nm, q, true)) return true; break;
            case FAILED: if (go(nm, q, rel)) return true; break;
            case TRYPOP: case POP:
                if (o.res < 0) { if (q.empty() && (o.k == TRYPOP || rel) && go(nm, q, rel)) return true; }
                else if (!q.empty() && q.front() == o.res) { std::vector<int> q2(q.begin() + 1, q.end()); if (go(nm, q2, rel)) return true; }
                break;
            }
        }
        return false;
    }
};

template <class Q> struct Run {
    Q q; Hist h; int nextid = 0;
    int newid() { NoSim n; return nextid++; }
    void push(bool move, bool refuse) {
        int id = newid(); Item it(id); int conds = 0, errs = 0;
        size_t i = h.begin(refuse ? PUSH_REFUSED : PUSH, id);
        auto cond = [&]() { ++conds; return !refuse; }; auto err = [&]() { ++errs; };
        if (move) q.push(std::move(it), cond, err); else q.push(it, cond, err);
        h.end(i, 0);
        if (conds < 1) violation("push-condition", "push did not ask its condition");
        if (errs != (refuse ? 1 : 0)) violation("push-callback", "a push whose condition is %s called its error callback %d times", refuse ? "false" : "true", errs);
        if (!move && it.check() != id) violation("push-argument", "push by const reference changed its argument");
    }
    int pop(bool blocking) {
        Item v(-9); v.body.assign(3, -9);
        size_t i = h.begin(blocking ? POP : TRYPOP, 0);
        bool ok = blocking ? q.pop(v) : q.tryPop(v);
        int id = ok ? v.check() : -1;
        h.end(i, id);
        if (ok && id < 0) violation("broken-item", "%s delivers a damaged item (%d)", blocking ? "pop" : "try-pop", id);
        return id;
    }
    void empty() { size_t i = h.begin(EMPTY, 0); bool e = q.empty(); h.end(i, e); }
    void copy() {
        size_t i = h.begin(COPY, 0); Q c(q); h.end(i, 0);
        Item v; std::vector<int> s;
        while (c.tryPop(v)) { int k = v.check(); if (k < 0) violation("broken-item", "a copy of the queue holds a damaged item"); s.push_back(k); if (s.size() > 200) violation("broken-copy", "a copy of the queue never runs empty"); }
        NoSim n; h.ops[i].snap = s;
    }
    void release() { size_t i = h.begin(RELEASE, 0); q.notifyAllPop(); h.end(i, 0); }
    void check() {
        NoSim n;
        for (auto &o : h.ops) if (o.ret == ~0ull) violation("unfinished", "%s never returned", opname[o.k]);
        if (h.ops.size() > 40) inconclusive("history too long");
        Lin l(h.ops); std::vector<int> q0; 
        if (!l.go(0, q0, false)) { std::string s = h.str(); violation("not-linearizable", "no one-at-a-time FIFO order explains the results:%s", s.substr(0, 1500).c_str()); }
        if (l.nodes > 2000000) inconclusive("history too hard");
        probe(10);
    }
};

// arbitrary mix; released at the end (or in the middle)
template <class Q> void queue_mix() {
    auto *r = new Run<Q>();
    int nth = 1 + (int)choice(3), len = 2 + (int)choice(4), ops[4][8];
    bool midrel = choice(3) == 0;
    for (int t = 0; t < nth; ++t) for (int i = 0; i < len; ++i) ops[t][i] = (int)choice(12);
    int mainops = (int)choice(4), mops[4]; for (int i = 0; i < mainops; ++i) mops[i] = (int)choice(12);
    describe("%d threads, %d queue operations each, %d by the main thread, wake-all %s", nth, len, mainops, midrel ? "while they run" : "after the main thread's operations");
    auto one = [r](int k, bool mayblock) {
        switch (k) {
        case 0: case 1: r->push(false, false); break;
        case 2: case 3: r->push(true, false); break;
        case 4: r->push(true, true); break;
        case 5: r->push(false, true); break;
        case 6: r->pop(false); break;
        case 7: case 8: case 9: r->pop(mayblock); break;
        case 10: r->empty(); break;
        default: r->copy(); break;
        }
    };
    std::vector<HThread> ts;
    for (int t = 0; t < nth; ++t) ts.emplace_back([&, t]() { for (int i = 0; i < len; ++i) one(ops[t][i], true); });
    if (midrel) r->release();
    for (int i = 0; i < mainops; ++i) one(mops[i], midrel);
    if (!midrel) r->release();
    for (auto &t : ts) t.join();
    int left = 0; while (r->pop(choice(2)) >= 0) if (++left > 100) violation("broken-queue", "the queue never runs empty");
    r->check();
    delete r;
}
// as many items as pops and no wake-all: every pop must return on its own
template <class Q> void queue_balanced() {
    auto *r = new Run<Q>();
    int pops = 1 + (int)choice(3), per = 1 + (int)choice(3), prod = 1 + (int)choice(3), total = pops * per;
    int refuse = (int)choice(3), peek = choice(2);
    describe("%d consumers pop %d items each, %d producers push %d items, %d refused pushes, no wake-all", pops, per, prod, total, refuse);
    std::vector<HThread> ts;
    bool late = choice(2);
    auto cons = [&]() { for (int i = 0; i < pops; ++i) ts.emplace_back([r, per, peek]() { for (int k = 0; k < per; ++k) { if (peek) r->empty(); if (r->pop(true) < 0) violation("pop-empty", "a blocking pop reports an empty queue although wake-all was never called"); } }); };
    if (!late) cons();
    for (int p = 0; p < prod; ++p) { int n = total / prod + (p < total % prod ? 1 : 0); bool mv = choice(2); int rf = p < refuse; ts.emplace_back([r, n, mv, rf]() { for (int k = 0; k < n; ++k) { if (rf && k == 0) r->push(mv, true); r->push(mv, false); } }); }
    if (late) cons();
    for (auto &t : ts) t.join();
    r->empty();
    r->check(); probe(11);
    delete r;
}
// poppers blocked on an empty queue are all released, later pops never block
template <class Q> void queue_release() {
    auto *r = new Run<Q>();
    int pops = 1 + (int)choice(4), pushes = (int)choice(4), after = (int)choice(3), y = (int)choice(4);
    describe("%d poppers, %d items, wake-all, then %d more pops", pops, pushes, after);
    std::vector<HThread> ts;
    for (int i = 0; i < pops; ++i) ts.emplace_back([r]() { r->pop(true); });
    bool other = choice(2);
    if (other) ts.emplace_back([r, pushes]() { for (int i = 0; i < pushes; ++i) r->push(i & 1, false); });
    else for (int i = 0; i < pushes; ++i) r->push(i & 1, false);
    for (int i = 0; i < y; ++i) sched_yield();
    r->release();
    for (int i = 0; i < after; ++i) r->pop(true);
    for (auto &t : ts) t.join();
    r->pop(true); r->push(true, false); r->pop(true);
    r->check(); probe(12);
    delete r;
}
using Q1 = SimpleConcurrenceQueue<Item>;
using Q2 = SimpleConcurrenceQueue<Item, std::list<Item>>;
// a push condition and the insertion are one step: once a flag that the condition reads is set and the queue
// has been seen empty, nothing may appear any more
void queue_close() {
    int prod = 1 + (int)choice(3), per = 1 + (int)choice(3), y = (int)choice(6), mode = (int)choice(3);
    describe("%d producers push %d items each while a flag allows it; the main thread clears the flag and drains (%s)", prod, per, mode == 0 ? "try-pop" : mode == 1 ? "empty and try-pop" : "copy and try-pop");
    Q1 *q = new Q1(); std::atomic<bool> open{true}; std::atomic<int> in{0}, refused{0}; int out = 0;
    {
        std::vector<HThread> ts;
        for (int p = 0; p < prod; ++p) { bool mv = choice(2); ts.emplace_back([&, p, mv]() { for (int k = 0; k < per; ++k) {
            Item it(p * per + k); bool bad = false; auto cond = [&]() { return open.load(); }; auto err = [&]() { bad = true; };
            if (mv) q->push(std::move(it), cond, err); else q->push(it, cond, err);
            if (bad) refused++; else in++; } }); }
        for (int i = 0; i < y; ++i) sched_yield();
        if (choice(2)) { Item v; if (q->tryPop(v)) ++out; }
        open = false;
        Item v;
        if (mode == 1) { while (!q->empty()) { if (!q->tryPop(v)) violation("lost-item", "the only consumer saw a queue that is not empty and could pop nothing"); ++out; } }
        else if (mode == 2) { for (;;) { Q1 c(*q); if (c.empty()) break; while (c.tryPop(v)) { Item w; if (!q->tryPop(w) || w.check() != v.check()) violation("lost-item", "the only consumer cannot pop what a copy of the queue holds"); ++out; } } }
        else while (q->tryPop(v)) ++out;
        for (int i = 0; i < 3; ++i) { if (!q->empty() || q->tryPop(v)) violation("late-item", "an item appeared in the queue after its push condition had become false and the queue had been seen empty"); sched_yield(); }
        for (auto &t : ts) t.join();
        if (q->tryPop(v)) violation("late-item", "an item appeared in the queue after its push condition had become false and the queue had been seen empty");
    }
    if (in != out || in + refused != prod * per) violation("lost-item", "%d items were accepted, %d refused, %d popped", in.load(), refused.load(), out);
    delete q; probe(14);
}
// long histories: every item exactly once, the items of one producer in order, nothing blocks
void queue_many(bool flood = false) {
    if (flood) set_light();
    int prod = 1 + (int)choice(3), cons = 1 + (int)choice(4), per = flood ? (choice(4) ? 1000 + (int)choice(3000) : (65600 + (int)choice(3000)) / prod) : 30 + (int)choice(100), total = prod * per; bool tp = choice(3) == 0, fill = choice(flood ? 2 : 3) == 0; int rel = (int)choice(3);
    describe("%d producers push %d items each, %d consumers (%s)%s", prod, per, cons, tp ? "try-pop and pop" : "pop", fill ? ", the queue is filled first" : "");
    Q1 *q = new Q1(); int *seen, *last; { NoSim n; seen = new int[total](); last = new int[cons * prod]; for (int i = 0; i < cons * prod; ++i) last[i] = -1; }
    std::atomic<int> got{0};
    auto produce = [&](int p) { for (int k = 0; k < per; ++k) { Item it(p * per + k); auto y = [] { return true; }; auto no = [] { violation("push-callback", "an accepted push called its error callback"); }; if (k & 1) q->push(it, y, no); else q->push(std::move(it), y, no); } };
    auto take = [&](int c, bool blocking) { Item v; bool ok = blocking ? q->pop(v) : q->tryPop(v); if (!ok) return false; int id = v.check(); if (id < 0 || id >= total) violation("broken-item", "pop delivers a damaged item (%d)", id);
        NoSim n; if (seen[id]++) violation("not-once", "item %d was popped twice", id); int &l = last[c * prod + id / per]; if (id % per <= l) violation("order", "a consumer got item %d of a producer after item %d", id % per, l); l = id % per; return true; };
    {
        std::vector<HThread> ts;
        if (fill) for (int p = 0; p < prod; ++p) produce(p);
        else for (int p = 0; p < prod; ++p) ts.emplace_back([&, p] { produce(p); });
        std::atomic<int> *ticket = new std::atomic<int>(0);
        for (int c = 0; c < cons; ++c) ts.emplace_back([&, c, ticket] {
            if (rel) { while (got.load() < total) { if (take(c, !tp)) { if (++got == total) q->notifyAllPop(); } else { if (got.load() >= total) break; if (!tp) violation("pop-empty", "a blocking pop reports an empty queue although wake-all was not called"); sched_yield(); } } }
            else while (ticket->fetch_add(1) < total) { if (!take(c, true)) violation("pop-empty", "a blocking pop reports an empty queue although wake-all was never called"); ++got; } });
        for (auto &t : ts) t.join();
        delete ticket;
    }
    if (got != total) violation("lost-item", "%d items were pushed, %d popped", total, got.load());
    if (!q->empty()) violation("broken-queue", "all items were popped and the queue is not empty");
    delete q; probe(15);
}
// pushes and copies that fail half-way (copying the item throws, the condition or the error callback throws, no memory) change
// nothing: the caller gets its own exception and everybody else sees a queue on which the operation never happened
thread_local int fuse = 0;      // the fuse-th copy of a CItem made by this thread throws
struct CItem {                  // can only be copied
    int id = -1; std::vector<int> body;
    CItem() = default;
    explicit CItem(int i) : id(i), body(3, i) {}
    static void burn() { if (fuse && --fuse == 0) throw Boom{77}; }
    CItem(const CItem &o) { burn(); NoSim n; body = o.body; id = o.id; }
    CItem &operator=(const CItem &o) { NoSim n; body = o.body; id = o.id; return *this; }      // taking an item out does not fail
    int check() const { for (int x : body) if (x != id) return -3; return body.size() == 3 ? id : -4; }
};
template <class Q, class I> void queue_fault() {
    const bool copyonly = std::is_same<I, CItem>::value;
    struct R { Q q; Hist h; int nextid = 0; } *r = new R();
    int prod = 1 + (int)choice(2), cons = 1 + (int)choice(2), per = 1 + (int)choice(3), total = prod * per, copies = (int)choice(3), oom = (int)choice(3);
    int plan[2][4][3]; for (int p = 0; p < prod; ++p) for (int k = 0; k < per; ++k) { plan[p][k][0] = (int)choice(7); plan[p][k][1] = 1 + (int)choice(3); plan[p][k][2] = (int)choice(2); }
    describe("%d producers push %d items each, %d consumers, %d copies of the queue; item copies, conditions and callbacks that throw%s", prod, per, cons, copies, oom == 1 ? ", one allocation fails" : oom == 2 ? ", allocations fail with a probability" : "");
    auto caught = [&](size_t i, bool mayoom) { NoSim n; try { throw; } catch (Boom &b) { if (b.id != 77 && b.id != 78 && b.id != 79) violation("wrong-exception", "a queue operation threw an exception nobody in it threw"); } catch (std::bad_alloc &) { if (!mayoom) violation("wrong-exception", "a queue operation reports no memory, which did not happen"); } catch (std::exception &e) { violation("wrong-exception", "a queue operation threw %s instead of the exception of the item or the callback", e.what()); } r->h.ops[i].k = FAILED; r->h.ops[i].ret = seq(); };
    int nth = 1 + (int)choice(40), len = 1 + (int)choice(2);
    {
        std::vector<HThread> ts;
        { NoSim n; ts.reserve(8); }
        auto push = [=](int f, int k, int mv) {
            int id; I *it; { NoSim n; id = r->nextid++; it = new I(id); }
            for (int tries = 0;; ++tries) {
                size_t i; { NoSim n; if (it->check() != id) { delete it; it = new I(id); } }      // moved away by a push that failed after moving
                i = r->h.begin(PUSH, id); int conds = 0, errs = 0; bool refuse = false;
                auto cond = [&]() -> bool { ++conds; if (f == 1 && tries == 0) throw Boom{78}; refuse = f >= 2 && f <= 3 && tries == 0; return !refuse; };
                auto err = [&]() { ++errs; if (f == 3) throw Boom{79}; };
                if (copyonly && f >= 4 && f <= 5 && tries == 0) fuse = k; else fuse = 0;
                bool ok = true;
                try { if (mv) r->q.push(std::move(*it), cond, err); else r->q.push(*it, cond, err); } catch (...) { ok = false; caught(i, oom != 0); }
                fuse = 0;
                if (errs != (refuse ? 1 : 0)) violation("push-callback", "a push whose condition is %s called its error callback %d times", refuse ? "false" : "true", errs);
                if (ok && f == 1 && tries == 0) violation("wrong-exception", "push swallowed the exception of its condition");
                if (ok && f == 3 && tries == 0) violation("wrong-exception", "push swallowed the exception of its error callback");
                { NoSim n; if (!mv && it->check() != id) violation("push-argument", "push by const reference changed its argument"); }
                if (ok) { NoSim n; if (refuse) r->h.ops[i].k = PUSH_REFUSED; r->h.end(i, 0); }
                if (ok && !refuse) break;
                if (tries > 200) violation("stuck", "push keeps failing");
            }
            NoSim n; delete it;
        };
        auto pop = [=](bool blocking) {
            I *v; { NoSim n; v = new I(-9); }
            int id;
            for (int tries = 0;; ++tries) {
                size_t i = r->h.begin(blocking ? POP : TRYPOP, 0); bool ok = true, got = false;
                fuse = 0;
                try { got = blocking ? r->q.pop(*v) : r->q.tryPop(*v); } catch (...) { ok = false; caught(i, oom != 0); }
                fuse = 0;
                if (ok) { NoSim n; id = got ? v->check() : -1; r->h.end(i, id); if (got && id < 0) violation("broken-item", "pop delivers a damaged item (%d)", id); break; }
                if (tries > 200) violation("stuck", "pop keeps failing");
            }
            NoSim n; delete v; return id;
        };
        auto copy = [=](int b) {
            size_t i = r->h.begin(COPY, 0); Q *c = nullptr;
            fuse = copyonly ? b : 0;
            try { c = new Q(r->q); } catch (...) { caught(i, oom != 0); }
            fuse = 0;
            if (!c) return;
            r->h.end(i, 0);
            std::vector<int> *s; I *v; { NoSim n; s = new std::vector<int>; v = new I(-9); }
            for (int tries = 0; tries < 200;) { bool g = false; try { g = c->tryPop(*v); } catch (std::bad_alloc &) { ++tries; continue; } NoSim n; if (!g) break; if (v->check() < 0) violation("broken-item", "a copy of the queue holds a damaged item"); s->push_back(v->id); if (s->size() > 200) violation("broken-copy", "a copy of the queue never runs empty"); }
            delete c;
            NoSim n; r->h.ops[i].snap = *s; delete s; delete v;
        };
        for (int c = 0; c < cons; ++c) { int n = total / cons + (c < total % cons ? 1 : 0); ts.emplace_back([=]() { for (int k = 0; k < n; ++k) { int id = pop(true); if (id < 0) violation("pop-empty", "a blocking pop reports an empty queue although wake-all was never called"); } }); }
        for (int p = 0; p < prod; ++p) ts.emplace_back([=]() { for (int k = 0; k < per; ++k) push(plan[p][k][0], plan[p][k][1], plan[p][k][2]); });
        if (oom == 1) arm_alloc_nth(nth, len); else if (oom == 2) arm_alloc_prob(100000);
        for (int k = 0; k < copies; ++k) copy(k ? 1 + k : 0);
        for (auto &t : ts) t.join();
        disarm_alloc();
        if (!r->q.empty()) violation("broken-queue", "all items were popped and the queue is not empty");
        r->q.notifyAllPop(); I v; if (r->q.pop(v) || r->q.tryPop(v)) violation("extra-item", "all items were popped and the queue delivers another one");
    }
    {
        NoSim n;
        for (auto &o : r->h.ops) if (o.ret == ~0ull) violation("unfinished", "%s never returned", opname[o.k]);
        if (r->h.ops.size() <= 40) { Lin l(r->h.ops); std::vector<int> q0; if (!l.go(0, q0, false)) { std::string s = r->h.str(); violation("not-linearizable", "no one-at-a-time FIFO order explains the results:%s", s.substr(0, 1500).c_str()); } }
        probe(19);
    }
    delete r;
}
// plain data travels with the items
void queue_handoff() {
    int prod = 1 + (int)choice(2), cons = 1 + (int)choice(3), per = 1 + (int)choice(4), total = prod * per; bool tp = choice(2), cp = choice(3) == 0;
    describe("%d producers hand %d items with plain data each to %d consumers%s", prod, per, cons, tp ? " (try-pop)" : "");
    struct D { int a = 0, b = 0; };
    std::vector<D> data((size_t)total); int got = 0; std::mutex m;
    {
        SimpleConcurrenceQueue<std::shared_ptr<D>> q;
        std::vector<HThread> ts;
        for (int p = 0; p < prod; ++p) ts.emplace_back([&, p]() { for (int k = 0; k < per; ++k) { D &d = data[(size_t)(p * per + k)]; d.a = p * 100 + k + 1; auto sp = std::make_shared<D>(); sp->a = d.a; if (k & 1) q.push(sp, [] { return true; }, [] {}); else q.push(std::move(sp), [] { return true; }, [] {}); } });
        if (cp) ts.emplace_back([&]() { SimpleConcurrenceQueue<std::shared_ptr<D>> c(q); std::shared_ptr<D> s; while (c.tryPop(s)) { if (s->a <= 0) violation("lost-write", "an item of a copied queue does not show its producer's writes"); } (void)q.empty(); });
        for (int c = 0; c < cons; ++c) ts.emplace_back([&]() {
            for (;;) {
                std::shared_ptr<D> s; bool ok = tp ? q.tryPop(s) : q.pop(s);
                if (ok) { int a = s->a; D &d = data[(size_t)((a / 100) * per + a % 100 - 1)]; if (d.a != a) violation("lost-write", "an item does not show what its producer wrote before pushing it"); d.b = a + 5; std::lock_guard<std::mutex> l(m); if (++got == total) q.notifyAllPop(); }
                else if (!tp) return; else { { std::lock_guard<std::mutex> l(m); if (got == total) return; } sched_yield(); }
            }
        });
        for (auto &t : ts) t.join();
    }
    for (auto &d : data) if (d.b != d.a + 5) violation("lost-item", "an item was pushed and never popped");
    probe(13);
}
}  // namespace

static const uint64_t CAP = 300000;
SCENARIO("C03", queue_mix_03, 8, CAP, false) { if (choice(5)) queue_mix<Q1>(); else queue_mix<Q2>(); }
SCENARIO("C03", queue_balanced_03, 5, CAP, false) { queue_balanced<Q1>(); }
SCENARIO("C03", queue_release_03, 5, CAP, false) { queue_release<Q1>(); }
SCENARIO("C03", queue_many_03, 1, 4000000, false) { queue_many(); }
SCENARIO("C03", queue_flood_03, 1, 1500000000, false) { if (choice(6)) queue_many(); else queue_many(true); }
SCENARIO("C03", queue_fault_03, 3, CAP, false) { using QC = SimpleConcurrenceQueue<CItem>; using QL = SimpleConcurrenceQueue<CItem, std::list<CItem>>; int k = (int)choice(5); if (k < 2) queue_fault<Q1, Item>(); else if (k < 4) queue_fault<QC, CItem>(); else queue_fault<QL, CItem>(); }
SCENARIO("C03", queue_close_03, 4, CAP, false) { queue_close(); }
SCENARIO("C04", queue_handoff_04, 4, CAP, true) { queue_handoff(); }
SCENARIO("C04", queue_release_04, 1, CAP, true) { queue_release<Q1>(); }
