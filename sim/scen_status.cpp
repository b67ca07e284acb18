// Status scenarios: C13 (one status per thread), C14 (registrations persist, first use is safe)
#include "h.h"
#include "BigInteger.h"
#include "BigIntegerImpl.h"
#include "Status.h"
#include "errInfos.h"
#include "expr.h"
#include "infixExpr/SymbolTable.h"
#include "parallel/ThreadPool.h"
#include "../c/src/pgbn.h"
#include <sched.h>
using namespace pgbn;
void raise_by_fraction(int how, int v);        // scen_num.cpp

namespace {
constexpr int MAXSIMT = 64, MAXCODE = 64;
// calls of callbacks, by thread and code slot; harness memory
struct CbLog { int n[MAXSIMT][MAXCODE]; int tag[MAXSIMT][MAXCODE]; int depth[MAXSIMT]; int inner[MAXSIMT]; } *cb;
int g_cbyield, g_cbdepth = 1; bool g_cbuse;
void cb_use(int slot);             // callbacks may use the library themselves
void cb_hit(int slot, int tag) { { NoSim n; int t = self_id() % MAXSIMT; cb->n[t][slot] += !cb->depth[t]; cb->inner[t] += !!cb->depth[t]; cb->tag[t][slot] = tag; } for (int i = 0; i < g_cbyield; ++i) sched_yield(); if (g_cbuse) cb_use(slot); }
void c_cb(void *arg) { uintptr_t x = (uintptr_t)arg; cb_hit((int)(x & 63), (int)(x >> 6)); }
int total(int slot) { int s = 0; for (int t = 0; t < MAXSIMT; ++t) s += cb->n[t][slot]; return s; }
int mine(int slot) { return cb->n[self_id() % MAXSIMT][slot]; }

const int NBUILTIN = 17;                       // codes 0..16 are the library's own
struct Reg { bool known; bool cback; int tag; std::string msg; };     // what the user registered last for a slot (harness memory)
struct Model { Reg r[MAXCODE]; } *md;
const int LAST = 41;                           // ~0, which an expression that cannot be parsed leaves in the status
Enum code_of(int slot) { return slot == LAST ? (Enum)-1 : slot < NBUILTIN ? (Enum)slot : slot == 40 ? (Enum)0x7fffffffu : (Enum)(1000 + slot * 7); }
void setup() { NoSim n; cb = new CbLog(); memset(cb, 0, sizeof *cb); md = new Model(); g_cbyield = 0; g_cbuse = false; g_cbdepth = 1; }

// the callback of a slot, by the library's getter, is the one registered last
void check_cb(int slot, const char *where) {
    bool k, has; int tag; { NoSim n; k = md->r[slot].known; has = md->r[slot].cback; tag = md->r[slot].tag; }
    if (!k) return;
    const Callback &c = Status::getCallback(code_of(slot));
    if (!!c != has) violation("stale-callback", "%s: status code %u has %s callback", where, (unsigned)code_of(slot), !!c ? "a" : "no");
    if (!c) return;
    int before; { NoSim n; before = mine(slot); }
    c();
    NoSim n; if (mine(slot) - before != 1 || cb->tag[self_id() % MAXSIMT][slot] != tag) violation("stale-callback", "%s: the callback got for status code %u is not the one registered last", where, (unsigned)code_of(slot));
}
// register a message (and a callback) for a slot, by one of the interfaces
void reg(int slot, bool with_cb, int tag, int api, uint32_t fail = 0) {
    char m[80]; snprintf(m, sizeof m, "user message %d for slot %d, long enough to live on the heap", tag, slot);
    Enum c = code_of(slot);
    check_cb(slot, "before registering");
    if (fail) arm_alloc_nth(fail, 1);           // memory runs out: what was registered before stays in force
    try {
    if (api == 0) { if (with_cb) Status::registe(c, StringArg(m), cb_hit, slot, tag); else Status::registe(c, StringArg(m)); }
    else if (api == 1) { if (with_cb) pgbn_Status_RegisterWithCallback((pgbn_Enum_t)c, m, c_cb, (void *)(uintptr_t)(slot | tag << 6)); else pgbn_Status_Register((pgbn_Enum_t)c, m); }
    else { if (with_cb) Status::registe(c, StringArg(m), [slot, tag] { cb_hit(slot, tag); }); else Status::registe(c, StringArg(m)); }
    } catch (const std::bad_alloc &) { disarm_alloc(); if (!fail) throw; probe(17); check_cb(slot, "after a registration that failed"); return; }
    if (fail) disarm_alloc();
    { NoSim n; md->r[slot].known = true; md->r[slot].cback = with_cb; md->r[slot].tag = tag; md->r[slot].msg = m; }
    check_cb(slot, "after registering");
}
// the message of a slot as it has to be
const char *want(int slot) {
    if (md->r[slot].known) return md->r[slot].msg.c_str();
    if (slot < NBUILTIN) { for (SizeType i = 0; i < errInfoCount; ++i) if (errInfos[i].code == (Enum)slot) return errInfos[i].info; violation("no-message", "the library's own status code %d has no builtin message", slot); }
    return "<ERROR_INFO>";
}
void expect_text(const std::string &s, int slot, const char *where) {
    char buf[160]; size_t l = s.size() < sizeof buf - 1 ? s.size() : sizeof buf - 1; memcpy(buf, s.data(), l); buf[l] = 0;
    NoSim n; const char *w = want(slot);
    if (strcmp(buf, w)) violation("wrong-message", "%s: status code %u has the message \"%s\" instead of \"%s\"", where, (unsigned)code_of(slot), buf, w);
}
void cb_use(int slot) { expect_text(Status::getInfo(code_of(slot)), slot, "inside a callback"); if (!Status::find(code_of(slot))) violation("no-message", "inside a callback: its status code is not known"); BigInteger x(slot); x += 5; x *= x; if (!(x == (std::int64_t)(slot + 5) * (slot + 5))) violation("wrong-result", "arithmetic inside a callback is wrong");
    int t = self_id() % MAXSIMT, *d = &cb->depth[t], before; { NoSim n; ++*d; before = cb->inner[t]; }
    if (*d <= g_cbdepth) { int k = g_cbdepth - *d + 1; if (*d & 1) { Status own(code_of(slot)); expect_text(own.getInfo(), slot, "a status made inside a callback"); } else { Status own; own = code_of(slot); expect_text(own.getInfo(), slot, "a status set inside a callback"); } NoSim n; if (cb->inner[t] - before != k) violation("callback-count", "an error raised inside a callback, %d deep, ran %d callbacks instead of %d", *d, cb->inner[t] - before, k); }
    { NoSim n; --*d; } }
bool usable(int slot) { return slot < NBUILTIN || md->r[slot].known; }

// ---------------------------------------------------------------- what one thread does
struct Ctx { std::string s; int v; explicit Ctx(int x) : s("a context that lives on the heap, number " + std::to_string(x)), v(x) {} int get() const { return s == "a context that lives on the heap, number " + std::to_string(v) ? v : -1; } };
struct TState { int last = -1; int ctx = 0; bool hasctx = false; Status *addr = nullptr; pgbn_Status_t *ch = nullptr; Status own; int ownslot = -1, ownctx = 0; bool ownnone = false; };
void check_kept(TState &t, const char *where) {      // the status object the thread keeps for itself
    if (t.ownslot < 0) return;
    expect_text(t.own.getInfo(), t.ownslot, where);
    if (t.ownnone) { bool none = false; try { (void)t.own.context<int>(); } catch (const std::bad_any_cast &) { none = true; } if (!none) violation("wrong-context", "%s: a status object moved from one without a context has a context", where); }
    if (t.ownctx && t.own.context<int>() != t.ownctx) violation("wrong-context", "%s: a status object of the thread's own has the context %d, it was given %d", where, t.own.context<int>(), t.ownctx);
}
void check_own(TState &t, const char *where) {
    check_kept(t, where);
    Status *p = Status::getInstance();
    if (t.addr && p != t.addr) violation("moved", "%s: a thread's status object changed its address", where);
    t.addr = p;
    if (t.last >= 0) expect_text(p->getInfo(), t.last, where);
    else { std::string s = p->getInfo(); bool ok; { NoSim n; ok = !strcmp(s.c_str(), want(LAST)); } if (!ok) violation("wrong-status", "%s: a thread that raised nothing has the status \"%s\"", where, s.c_str()); }
    pgbn_Status_t *h = pgbn_Status_GetGlobalInstance();
    if (t.ch && h != t.ch) violation("moved", "%s: a thread's global status handle changed its address", where);
    const char *ci = pgbn_Status_GetInfo(t.ch ? t.ch : h);
    if (t.last >= 0) expect_text(ci, t.last, where);
    t.ch = h;
    if (t.hasctx) { int c = t.ctx & 1 ? p->context<int>() : p->context<Ctx>().get(); if (c != t.ctx) violation("wrong-context", "%s: a thread's status has the context %d, it was given %d", where, c, t.ctx); }
}
// an action that raises the code of `slot` (when it can); returns the slot raised
int raise(int kind, int slot, TState &t) {
    switch (kind) {
    case 0: *Status::getInstance() = code_of(slot); break;
    case 1: pgbn_Status_SetErrno(t.ch ? t.ch : pgbn_Status_GetGlobalInstance(), (pgbn_Enum_t)code_of(slot)); break;
    case 2: { BigInteger x(5); bool ok = true; x.assign(StringArg("17"), 99, &ok); slot = ErrCode::RADIX_INVALID; break; }
    case 3: { BigIntegerImpl x; x.fromString(StringArg(""), 10); slot = ErrCode::NUMBER_STRING_EMPTY; break; }
    case 4: { BigInteger x(StringArg("3-4"), 10); slot = ErrCode::NUMBER_STRING_SIG_INVALID; break; }
    case 5: { BigInteger x(StringArg("99999999999999999999999999"), 10); int before = mine(ErrCode::ARITHMETIC_OVERFLOW); (void)before; (void)x.getInt64(); slot = ErrCode::ARITHMETIC_OVERFLOW; break; }
    case 6: { BigInteger x(-3); std::uint64_t r; (void)x.tryGetUInt64(r); slot = ErrCode::ARITHMETIC_OVERFLOW; break; }
    case 7: { BigInteger x(7); x /= 0; slot = ErrCode::DIVBY0; break; }
    case 8: { BigInteger x(StringArg("123456789012345678901234567890"), 10), z; x %= z; slot = ErrCode::DIVBY0; break; }
    case 9: { BigInteger x(77); std::int64_t r; (void)x.tryGetInt64(r); slot = ErrCode::SUCCESS; break; }
    case 10: { BigInteger x(StringArg("zz!"), 36); slot = ErrCode::NUMBER_STRING_PARSE2NUM_ERROR; { BigInteger y(StringArg("!!!"), 36); } break; }
    case 11: { pgbn_BigInteger_t *b = pgbn_BigInteger_CreateWithI64(8); pgbn_BigInteger_DivAssignWithI64(b, 0); pgbn_BigInteger_Destroy(b); slot = ErrCode::DIVBY0; break; }
    case 13: case 14: case 15: case 16: raise_by_fraction(kind - 13, slot); slot = kind == 16 ? ErrCode::SUCCESS : ErrCode::DIVBY0; break;
    case 17: {                                        // an expression that cannot be parsed, with the thread's own status or one given by the caller
        static const char *ex[] = {"(1+2", "(1?2", "((3)", "7?8"};
        if (slot & 1) { Status own(ErrCode::SUCCESS); (void)pgbn::expr::eval(StringArg(ex[slot & 2]), &own); expect_text(own.getInfo(), LAST, "the caller's status after eval"); slot = ErrCode::PARSE_INFIXEXPR_BAD_TOKEN; }
        else { (void)(slot & 2 ? pgbn::expr::peval(StringArg(ex[slot >> 2 & 3]), 2) : pgbn::expr::eval(StringArg(ex[slot >> 2 & 3]))); slot = LAST; }
        t.hasctx = false; break; }
    case 18: { bool ok = true; BigInteger x(7); x.assign(StringArg("-"), 10, &ok); if (ok) violation("wrong-status", "parsing \"-\" reports success"); slot = ErrCode::NUMBER_STRING_EMPTY; break; }
    case 19: { BigInteger x(StringArg("123456789123456789"), 10); bool ok = false; (void)x.toString(10); (void)x.getInt64(&ok); if (!ok) violation("wrong-status", "a conversion that fits reports failure"); slot = ErrCode::SUCCESS; break; }
    default: { pgbn_BigInteger_t *b = pgbn_BigInteger_CreateWithStr("1+1", 10); if (b) pgbn_BigInteger_Destroy(b); slot = ErrCode::NUMBER_STRING_SIG_INVALID; break; }
    }
    return slot;
}
bool once_per_raise(int kind, int slot0) { return kind != 10 && !(kind == 14 && (slot0 & 1)); }        // that one parses twice
struct Act { int what, kind, slot, val; };
void one(const Act &a, TState &t, const char *where) {
    switch (a.what) {
    case 0: case 1: case 2: case 3: {
        int slot = a.slot, kind = a.kind;
        int before[MAXCODE]; { NoSim n; memcpy(before, cb->n[self_id() % MAXSIMT], sizeof before); }
        slot = raise(kind, slot, t);
        t.last = slot;
        { NoSim n; int d = mine(slot) - before[slot];
          if (md->r[slot].cback && slot != ErrCode::SUCCESS && once_per_raise(kind, a.slot) && d != 1) violation("callback-count", "%s: the callback of status code %u ran %d times on the thread that raised it once", where, (unsigned)code_of(slot), d);
          if (md->r[slot].cback && d >= 1 && cb->tag[self_id() % MAXSIMT][slot] != md->r[slot].tag) violation("stale-callback", "%s: status code %u ran a callback that had been replaced", where, (unsigned)code_of(slot)); }
        if (a.what < 3) check_own(t, where);
        break; }
    case 4: check_own(t, where); break;
    case 5: if (a.val & 1) Status::getInstance()->setContext(std::any(a.val)); else Status::getInstance()->setContext(std::any(Ctx(a.val))); t.ctx = a.val; t.hasctx = true; break;
    case 6: {                                                  // status objects of the thread's own
        int before; { NoSim n; before = mine(a.slot); }
        Status s(code_of(a.slot)); expect_text(s.getInfo(), a.slot, where);
        { NoSim n; if (md->r[a.slot].cback && mine(a.slot) - before != 1) violation("callback-count", "%s: constructing a status ran its callback %d times", where, mine(a.slot) - before); }
        Status u(std::move(s)); expect_text(u.getInfo(), a.slot, where); break; }
    case 7: {
        int before; { NoSim n; before = mine(a.slot); }
        pgbn_Status_t *s = pgbn_Status_CreateWithErrno((pgbn_Enum_t)code_of(a.slot)); expect_text(pgbn_Status_GetInfo(s), a.slot, where); pgbn_Status_Destroy(s);
        { NoSim n; if (md->r[a.slot].cback && mine(a.slot) - before != 1) violation("callback-count", "%s: creating a status ran its callback %d times", where, mine(a.slot) - before); }
        break; }
    case 8: { expect_text(Status::getInfo(code_of(a.slot)), a.slot, where); expect_text(pgbn_Status_GetInfoByErrno((pgbn_Enum_t)code_of(a.slot)), a.slot, where); break; }
    case 9: { std::tuple<std::string, Callback> *p = nullptr; bool f = Status::find(code_of(a.slot), &p); if (!f || !p) violation("no-message", "%s: status code %u is not known", where, (unsigned)code_of(a.slot)); expect_text(std::get<0>(*p), a.slot, where); break; }
    case 10: {
        int before, n = 1; { NoSim z; before = mine(a.slot); }
        switch (a.val & 3) {
        case 0: t.own = code_of(a.slot); break;
        case 1: { Status s(code_of(a.slot)); s.setContext(std::any(a.val)); t.own = std::move(s); t.ownctx = a.val; break; }
        case 2: { Status s; s = code_of(a.slot); Status u(std::move(s)); t.own = std::move(u); t.ownctx = 0; t.ownnone = true; break; }
        default: t.own = code_of(a.slot); t.own.setContext(std::any(a.val)); t.ownctx = a.val; break;
        }
        t.ownslot = a.slot; if (t.ownctx) t.ownnone = false;
        { NoSim z; if (md->r[a.slot].cback && mine(a.slot) - before != n) violation("callback-count", "%s: setting a status object ran its callback %d times", where, mine(a.slot) - before); }
        if (md->r[a.slot].known) {
            const Callback &c = t.own.getCallback();
            if (!!c != md->r[a.slot].cback || !!Status::getCallback(code_of(a.slot)) != md->r[a.slot].cback) violation("stale-callback", "%s: status code %u has %s callback", where, (unsigned)code_of(a.slot), !!c ? "a" : "no");
            if (c && (a.val & 4)) { c(); ++n; NoSim z; if (mine(a.slot) - before != n || cb->tag[self_id() % MAXSIMT][a.slot] != md->r[a.slot].tag) violation("stale-callback", "%s: the callback got for status code %u is not the one registered", where, (unsigned)code_of(a.slot)); }
        }
        check_kept(t, where);
        break; }
    default: sched_yield();
    }
}
Act draw(int nslots) {
    Act a; a.what = choice(13); a.kind = choice(20); if (a.kind == 17 && !usable(LAST)) a.kind = 12; a.val = 1 + choice(100000);
    for (;;) { a.slot = choice(4) ? (int)choice(NBUILTIN) : NBUILTIN + (int)choice(nslots); if (usable(a.slot)) break; }
    return a;
}
// callbacks that must not end the process or be hidden
void register_quiet(int nslots) {
    reg(ErrCode::DIVBY0, true, 1, choice(3));
    for (int k = 0; k < nslots; ++k) reg(NBUILTIN + k, choice(3) != 0, 2, choice(3));
    for (int k = 0; k < 4; ++k) { int s = 2 + choice(NBUILTIN - 2); reg(s, choice(4) != 0, 3, choice(3)); }
    if (choice(3) == 0) reg(ErrCode::SUCCESS, choice(2), 4, choice(3));
    if (choice(2)) reg(LAST, choice(2), 5, choice(3));
}

SCENARIO("C13", status_threads, 4, 4000000, true) {
    setup();
    int nslots = 1 + choice(6); register_quiet(nslots); g_cbyield = choice(3); g_cbuse = choice(3) == 0; if (g_cbuse) g_cbdepth = 1 + choice(4);
    int nt = 2 + choice(3), len = 2 + choice(14), waves = 1 + choice(2);
    describe("%d wave(s) of %d threads, %d status operations each, callbacks yield %d times;", waves, nt, len, g_cbyield);
    TState *mt; { NoSim n; mt = new TState(); }
    std::vector<Act> *pm; { NoSim n; pm = new std::vector<Act>(); }
    for (int k = 0; k < len; ++k) { Act a = draw(nslots); NoSim n; pm->push_back(a); }
    for (int k = 0; k < len / 2; ++k) one((*pm)[k], *mt, "main thread, before");
    int before_total[MAXCODE]; (void)before_total;
    for (int w = 0; w < waves; ++w) {
        std::vector<Act> *ps; TState **ts; { NoSim n; ps = new std::vector<Act>[nt]; ts = new TState *[nt]; for (int t = 0; t < nt; ++t) ts[t] = new TState(); }
        for (int t = 0; t < nt; ++t) for (int k = 0; k < len; ++k) { Act a = draw(nslots); NoSim n; ps[t].push_back(a); }
        {
            std::vector<HThread> th; th.reserve(nt);
            for (int t = 0; t < nt; ++t) th.emplace_back([=] { check_own(*ts[t], "new thread"); for (int k = 0; k < len; ++k) one(ps[t][k], *ts[t], "worker thread"); check_own(*ts[t], "worker thread, end"); });
            for (int k = len / 2; k < len; ++k) one((*pm)[k], *mt, "main thread, meanwhile");
            for (auto &h : th) h.join();
        }
        check_own(*mt, "main thread, after");
        for (int t = 0; t < nt; ++t) if (ts[t]->addr == mt->addr) violation("shared", "two live threads have the same status object");
    }
}
// many threads come and go; each starts clean, and those that stay are not touched
SCENARIO("C13", status_churn, 1, 20000000, true) {
    setup(); int nslots = 1 + choice(4); register_quiet(nslots);
    int n = choice(4) ? 4 + choice(30) : 60 + choice(240), nres = choice(3), width = 1 + choice(3);
    describe("%d threads come and go, %d at a time, next to %d that stay;", n, width, nres);
    TState *mt; std::vector<Act> *acts; std::atomic<int> *phase = new std::atomic<int>(0), *ready = new std::atomic<int>(0); { NoSim z; mt = new TState(); acts = new std::vector<Act>(); }
    for (int k = 0; k < 12; ++k) { Act a = draw(nslots); NoSim z; acts->push_back(a); }
    int after = choice(2);
    {
        std::vector<HThread> res; res.reserve(3);
        one((*acts)[0], *mt, "main thread");
        for (int r = 0; r < nres; ++r) res.emplace_back([=] { TState ts; check_own(ts, "resident thread, new"); one((*acts)[1 + r], ts, "resident thread"); one((*acts)[4 + r], ts, "resident thread"); ready->fetch_add(1); while (!phase->load()) sched_yield(); check_own(ts, "resident thread, after others came and went"); one((*acts)[7], ts, "resident thread, later"); check_own(ts, "resident thread, later"); });
        while (ready->load() < nres) sched_yield();
        for (int i = 0; i < n; i += width) {
            std::vector<HThread> th; th.reserve(3);
            for (int w = 0; w < width; ++w) th.emplace_back([=] { TState ts; check_own(ts, "new thread"); one((*acts)[(i * 5 + w) % 12], ts, "short thread"); if (i & 1) one((*acts)[(i * 7 + w + 1) % 12], ts, "short thread"); check_own(ts, "short thread"); });
            for (auto &t : th) t.join();
            if (i % 16 == 0) check_own(*mt, "main thread, while others come and go");
        }
        check_own(*mt, "main thread, after others came and went");
        if (after) phase->store(1), one((*acts)[11], *mt, "main thread, later"); else phase->store(1);
        for (auto &t : res) t.join();
    }
    delete phase; delete ready;
}
// one error raised thousands of times
SCENARIO("C13", status_flood, 1, 40000000, true) {
    setup(); register_quiet(2);
    int nt = 1 + choice(3), k = choice(2) ? 50 + choice(300) : 1000 + choice(2000);
    describe("%d threads raise errors %d times each;", nt, k);
    Act *acts; { NoSim n; acts = new Act[nt * 3]; }
    for (int i = 0; i < nt * 3; ++i) { acts[i].what = 3; acts[i].kind = choice(2) ? 0 : (int)choice(17); acts[i].val = 1; do acts[i].slot = choice(2) ? (int)choice(NBUILTIN) : NBUILTIN + (int)choice(2); while (!usable(acts[i].slot)); }
    std::vector<HThread> th; th.reserve(nt);
    for (int t = 0; t < nt; ++t) th.emplace_back([=] { TState ts; for (int i = 0; i < k; ++i) { one(acts[t * 3 + i % 3], ts, "one of many errors"); if (i % 64 == 0) check_own(ts, "among many errors"); } check_own(ts, "after many errors"); });
    for (auto &x : th) x.join();
}
// statuses of threads that are alive at the same time are different objects, through either interface
SCENARIO("C13", status_handles, 2, 4000000, true) {
    setup(); register_quiet(2);
    int nt = 2 + choice(3);
    describe("%d threads exchange nothing but keep their status handles;", nt);
    struct Sl { Status *s; pgbn_Status_t *h; int slot; }; Sl *sl; { NoSim n; sl = new Sl[nt](); }
    int *slots; { NoSim n; slots = new int[nt]; } for (int t = 0; t < nt; ++t) slots[t] = 2 + choice(NBUILTIN - 2);
    uint32_t way = choice(4);
    std::atomic<int> *arrived = new std::atomic<int>(0);
    {
        std::vector<HThread> th; th.reserve(nt);
        for (int t = 0; t < nt; ++t) th.emplace_back([=] {
            pgbn_Status_t *h = pgbn_Status_GetGlobalInstance(); Status *s = Status::getInstance();
            if (way & 1) *s = code_of(slots[t]); else pgbn_Status_SetErrno(h, (pgbn_Enum_t)code_of(slots[t]));
            { NoSim n; sl[t].s = s; sl[t].h = h; }
            arrived->fetch_add(1);
            while (arrived->load() < nt) sched_yield();
            // all have set theirs now
            expect_text(s->getInfo(), slots[t], "after the others set theirs");
            expect_text(pgbn_Status_GetInfo(h), slots[t], "after the others set theirs (C handle)");
            expect_text(pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance()), slots[t], "after the others set theirs (C handle again)");
            if (Status::getInstance() != s) violation("moved", "a thread's status object changed its address");
            arrived->fetch_add(1);
            while (arrived->load() < 2 * nt) sched_yield();
        });
        for (auto &h : th) h.join();
    }
    for (int i = 0; i < nt; ++i) for (int j = 0; j < i; ++j) { NoSim n; if (sl[i].s == sl[j].s || sl[i].h == sl[j].h) violation("shared", "two live threads have the same %s", sl[i].s == sl[j].s ? "status object" : "global status handle"); }
    delete arrived;
}
// an error inside an evaluation is raised once, on the thread that evaluates
SCENARIO("C13", status_eval, 2, 8000000, true) {
    setup(); register_quiet(1);
    int nt = 1 + choice(3), k = 1 + choice(3);
    describe("%d threads evaluate expressions that divide by zero %d times;", nt, k);
    static const char *ex[] = {"(5/0)+1", "1+2*(7/(3-3))", "((2-2)*5)+(9/0)"};
    std::vector<int> *which; { NoSim n; which = new std::vector<int>(); } for (int i = 0; i < nt * k; ++i) { int x = choice(3); NoSim n; which->push_back(x); }
    uint32_t par = choice(3);
    {
        std::vector<HThread> th; th.reserve(nt);
        for (int t = 0; t < nt; ++t) th.emplace_back([=] {
            for (int i = 0; i < k; ++i) {
                const char *e = ex[(*which)[t * k + i]];
                if (par == 0 && nt == 1) { int b; { NoSim n; b = total(ErrCode::DIVBY0); } (void)pgbn::expr::peval(StringArg(e), 2); NoSim n; if (total(ErrCode::DIVBY0) - b != 1) violation("callback-count", "a division by zero inside peval ran its callback %d times", total(ErrCode::DIVBY0) - b); }
                else { int b; { NoSim n; b = mine(ErrCode::DIVBY0); } (void)pgbn::expr::eval(StringArg(e)); NoSim n; if (mine(ErrCode::DIVBY0) - b != 1) violation("callback-count", "a division by zero inside eval ran its callback %d times on the evaluating thread", mine(ErrCode::DIVBY0) - b); }
            }
        });
        for (auto &h : th) h.join();
    }
}
// the threads that run tasks and parts of expressions are threads like any other: each has its own status, for as long as it lives
struct Work { std::vector<Act> acts; bool raise; int onmain; int ran; } *wk;
thread_local TState *tl_state;
std::thread::id *main_id;
void work(int i, const char *where) {
    { NoSim n; wk->ran++; if (tl_state == nullptr) { tl_state = new TState(); } else if (std::this_thread::get_id() == *main_id) wk->onmain++; }
    if (!wk->raise) return;
    TState &t = *tl_state; check_own(t, where);
    Act a; { NoSim n; a = wk->acts[i % wk->acts.size()]; }
    one(a, t, where); sched_yield(); check_own(t, where);
}
SCENARIO("C13", status_workers, 2, 12000000, true) {
    setup(); int nslots = 1 + choice(4); register_quiet(nslots); g_cbyield = choice(3); g_cbuse = choice(3) == 0; if (g_cbuse) g_cbdepth = 1 + choice(4);
    bool expr = choice(2); int nth = 1 + choice(5), rounds = 1 + choice(3), n = 2 + choice(14);
    { NoSim z; wk = new Work(); tl_state = new TState(); main_id = new std::thread::id(std::this_thread::get_id()); }
    for (int k = 0; k < 16; ++k) { Act a = draw(nslots); NoSim z; wk->acts.push_back(a); }
    TState &mt = *tl_state; wk->raise = true;
    describe("%d %s of %d parts that raise errors, %d threads;", rounds, expr ? "parallel evaluations" : "pools", n, nth);
    std::string text; if (expr) { infixExpr::Func f; f.argCount = 1; f.nativeCall = [](infixExpr::Func::ArgType a) { work((int)a[0].toU64(), "function in a parallel evaluation"); return a[0]; }; infixExpr::SymbolTable::getInstance()->registe("raises", std::move(f));
        for (int i = 0; i < n; ++i) { int v = choice(60); text += i ? (choice(2) ? "+" : "|") : ""; text += choice(3) ? "raises(" + std::to_string(v) + ")" : "raises(raises(" + std::to_string(v) + ")*1)"; } }
    for (int r = 0; r < rounds; ++r) {
        int slot = 2 + choice(NBUILTIN - 2), val = 1 + choice(1000); bool ctx = choice(2); Act meanwhile = draw(nslots); bool busy = choice(2);
        auto begin = [&] { *Status::getInstance() = code_of(slot); mt.last = slot; if (ctx) { Status::getInstance()->setContext(std::any(Ctx(val * 2))); mt.ctx = val * 2; mt.hasctx = true; } check_own(mt, "main thread"); };
        if (expr) {
            wk->raise = false; begin(); (void)pgbn::expr::peval(StringArg(text.c_str()), nth); std::string quiet = Status::getInstance()->getInfo();
            wk->raise = true; wk->onmain = 0; begin(); (void)pgbn::expr::peval(StringArg(text.c_str()), nth); std::string loud = Status::getInstance()->getInfo();
            if (!wk->onmain && quiet != loud) violation("wrong-status", "after a parallel evaluation whose functions raised errors on other threads the caller's status is \"%s\", not \"%s\"", loud.c_str(), quiet.c_str());
            if (!wk->onmain && mt.hasctx) { int c = mt.ctx & 1 ? Status::getInstance()->context<int>() : Status::getInstance()->context<Ctx>().get(); if (c != mt.ctx) violation("wrong-context", "a parallel evaluation changed the context of the caller's status"); }
        } else {
            begin();
            { parallel::ThreadPool pool(nth); std::vector<std::future<void>> fu; for (int i = 0; i < n; ++i) fu.push_back(pool.addTask([](int k) { work(k, "task of a pool"); }, i + r)); if (busy) one(meanwhile, mt, "main thread, meanwhile"); for (auto &x : fu) x.get(); check_own(mt, "main thread, after the tasks"); }
            check_own(mt, "main thread, after the pool");
        }
    }
    { NoSim z; if (wk->ran < n) violation("lost-task", "only %d of the parts ran", wk->ran); }
}

// ---------------------------------------------------------------- C14
void check_all(const char *where) {
    for (int s = 0; s < NBUILTIN; ++s) expect_text(Status::getInfo(code_of(s)), s, where);
    for (int s = NBUILTIN; s < MAXCODE; ++s) { bool k; { NoSim n; k = md->r[s].known; } if (k) { expect_text(Status::getInfo(code_of(s)), s, where); check_cb(s, where); } }
    for (int s = 0; s < NBUILTIN; ++s) check_cb(s, where);
}
// first uses by different functions at the same time
void first_use(int how, int slot, const char *where) {
    switch (how) {
    case 0: { Status *p = Status::getInstance(); *p = code_of(slot == 1 ? 0 : slot); expect_text(p->getInfo(), slot == 1 ? 0 : slot, where); break; }
    case 1: expect_text(Status::getInfo(code_of(slot)), slot, where); break;
    case 2: { Status s(code_of(slot == 1 ? 2 : slot)); expect_text(s.getInfo(), slot == 1 ? 2 : slot, where); break; }
    case 3: if (!Status::find(code_of(slot))) violation("no-message", "%s: status code %d is not known at first use", where, slot); break;
    case 4: { pgbn_Status_t *s = pgbn_Status_Create(); expect_text(pgbn_Status_GetInfo(s), 0, where); pgbn_Status_Destroy(s); break; }
    case 5: expect_text(pgbn_Status_GetInfoByErrno((pgbn_Enum_t)code_of(slot)), slot, where); break;
    case 6: { BigInteger x(StringArg("1234567890123456789012"), 10); expect_text(Status::getInstance()->getInfo(), 0, where); break; }
    case 7: { pgbn_Status_t *h = pgbn_Status_GetGlobalInstance(); pgbn_Status_SetErrno(h, (pgbn_Enum_t)code_of(slot == 1 ? 3 : slot)); expect_text(pgbn_Status_GetInfo(h), slot == 1 ? 3 : slot, where); break; }
    case 8: { bool ok; BigInteger x(9); (void)x.getInt64(&ok); expect_text(Status::getInstance()->getInfo(), 0, where); break; }
    case 9: { std::string s = pgbn::expr::eval(StringArg("2+3")).toString(10); if (s != "5") violation("wrong-result", "%s: 2+3 = %s", where, s.c_str()); break; }
    case 10: { const Callback &c = Status::getCallback(code_of(slot)); if (!c) violation("no-callback", "%s: builtin status code %d has no callback at first use", where, slot); break; }
    default: { Status s; s = code_of(slot == 1 ? 4 : slot); expect_text(s.getInfo(), slot == 1 ? 4 : slot, where); break; }
    }
}
SCENARIO("C14", status_first_use, 4, 6000000, true) {
    setup();
    int nt = 2 + choice(4); int hows[8], slots[8];
    for (int t = 0; t < nt; ++t) { hows[t] = choice(12); slots[t] = choice(NBUILTIN); }
    bool mainfirst = choice(4) == 0;
    describe("%d threads use the library for the first time at once, by functions", nt); for (int t = 0; t < nt; ++t) describe(" %d", hows[t]); describe("%s;", mainfirst ? ", main too" : "");
    {
        std::vector<HThread> th; th.reserve(nt);
        for (int t = 0; t < nt; ++t) th.emplace_back([how = hows[t], slot = slots[t]] { first_use(how, slot, "first use"); first_use((how + 5) % 12, slot, "second use"); });
        if (mainfirst) first_use(1, 16, "main thread");
        for (auto &h : th) h.join();
    }
    check_all("after the first uses");
}
SCENARIO("C14", status_registrations, 4, 6000000, true) {
    setup();
    int rounds = 2 + choice(6), tag = 10;
    bool regfirst = choice(2);          // is registering the very first thing done with the library?
    describe("%d rounds of registering on some thread and using the library on others%s;", rounds, regfirst ? ", registering is the first use" : "");
    if (!regfirst) first_use(choice(12), choice(NBUILTIN), "main thread");
    { int t = ++tag, api = choice(3); reg(ErrCode::DIVBY0, true, t, api); }
    g_cbuse = choice(3) == 0; if (g_cbuse) g_cbdepth = 1 + choice(4);
    for (int r = 0; r < rounds; ++r) {
        int nreg = 1 + choice(3); struct Rg { int slot; bool cbk; int tag, api; uint32_t fail; } rg[4]; bool oom = choice(4) == 0;
        for (int k = 0; k < nreg; ++k) { int slot = choice(2) ? (int)choice(NBUILTIN) : choice(8) == 0 ? 40 : NBUILTIN + (int)choice(8); rg[k] = {slot, slot == ErrCode::DIVBY0 || choice(3) != 0, ++tag, (int)choice(3), oom ? 1 + choice(8) : 0}; }
        bool onthread = choice(2);
        auto doreg = [&] { for (int k = 0; k < nreg; ++k) reg(rg[k].slot, rg[k].cbk, rg[k].tag, rg[k].api, rg[k].fail); };
        if (onthread) { HThread t(doreg); t.join(); } else doreg();
        if (choice(2)) check_all("after registering");
        int nt = choice(4), len = 1 + choice(5); std::vector<Act> *ps; { NoSim n; ps = new std::vector<Act>[4]; }
        for (int t = 0; t < nt; ++t) for (int k = 0; k < len; ++k) { Act a = draw(8); NoSim n; ps[t].push_back(a); }
        bool late = choice(2);
        {
            std::vector<HThread> th; th.reserve(4);
            for (int t = 0; t < nt; ++t) th.emplace_back([=] { TState ts; for (int k = 0; k < len; ++k) one(ps[t][k], ts, "thread started after registering"); if (late) check_all("thread end"); });
            for (auto &h : th) h.join();
        }
        check_all("after other threads came and went");
        TState ts; Act a = draw(8); if (a.what <= 3) { a.what = 3; one(a, ts, "registering thread, later"); }
    }
    check_all("end");
}
// hundreds of codes
SCENARIO("C14", status_bulk, 1, 20000000, true) {
    setup(); reg(ErrCode::DIVBY0, true, 5, choice(3));
    int n = choice(3) ? 1 + choice(60) : 100 + choice(500), rounds = 1 + choice(3); uint32_t stride = choice(3) ? 1 + choice(5000) : 1u << choice(21);
    describe("%d status codes %u apart, %d rounds;", n, stride, rounds);
    int *ver, *want_cb, *got_cb; { NoSim z; ver = new int[n](); want_cb = new int[n](); got_cb = new int[n](); }
    auto code = [=](int i) { return (Enum)(1000u + (uint32_t)i * stride); };
    auto text = [](int i, int v) { char b[64]; snprintf(b, sizeof b, "code %d, version %d of a message", i, v); return std::string(b); };
    auto check = [=](const char *where) {
        for (int i = 0; i < n; ++i) { if (!ver[i]) continue; std::string s = Status::getInfo(code(i)), w = text(i, ver[i]); if (s != w) violation("wrong-message", "%s: status code %u of %d has the message \"%s\" instead of \"%s\"", where, (unsigned)code(i), n, s.c_str(), w.c_str());
            if (i % 7 == 0) { *Status::getInstance() = code(i); if (Status::getInstance()->getInfo() != w) violation("wrong-message", "%s: raising status code %u gives another message", where, (unsigned)code(i)); want_cb[i]++; if (got_cb[i] != want_cb[i]) violation("callback-count", "%s: the callback of status code %u ran %d times, it was raised %d times", where, (unsigned)code(i), got_cb[i], want_cb[i]); } }
        for (int s = 0; s < NBUILTIN; ++s) expect_text(Status::getInfo(code_of(s)), s, where);
    };
    for (int r = 0; r < rounds; ++r) {
        auto doreg = [=] { for (int i = 0; i < n; ++i) { if (r && (i + r) % 3) continue; int v = r + 1; std::string m = text(i, v); if (i % 7 == 0) Status::registe(code(i), StringArg(m.c_str()), [=] { got_cb[i]++; }); else if (i & 1) pgbn_Status_Register((pgbn_Enum_t)code(i), m.c_str()); else Status::registe(code(i), StringArg(m.c_str())); ver[i] = v; } };
        if (choice(2)) { HThread t(doreg); t.join(); } else doreg();
        if (choice(2)) { HThread t([=] { check("new thread"); }); t.join(); }
        check("registering or main thread");
    }
}
// long-lived threads see what is registered while they are idle
SCENARIO("C14", status_idle_threads, 2, 6000000, true) {
    setup(); reg(ErrCode::DIVBY0, true, 5, choice(3));
    int nt = 1 + choice(3), rounds = 1 + choice(4), tag = 20;
    describe("%d threads alive during %d registrations;", nt, rounds);
    std::atomic<int> *phase = new std::atomic<int>(0), *done = new std::atomic<int>(0);
    struct Rg { int slot, tag, api; bool cbk; } *rg; Act *acts; { NoSim n; rg = new Rg[rounds]; acts = new Act[rounds * nt]; }
    for (int r = 0; r < rounds; ++r) { rg[r].slot = choice(2) ? (int)choice(NBUILTIN) : NBUILTIN + (int)choice(8); rg[r].tag = ++tag; rg[r].api = choice(3); rg[r].cbk = true; for (int t = 0; t < nt; ++t) acts[r * nt + t] = Act{(int)choice(10), (int)choice(2), rg[r].slot, 7}; }
    {
        std::vector<HThread> th; th.reserve(nt);
        for (int t = 0; t < nt; ++t) th.emplace_back([=] {
            TState ts;
            for (int r = 0; r < rounds; ++r) { while (phase->load() <= r) sched_yield(); one(acts[r * nt + t], ts, "thread older than the registration"); expect_text(Status::getInfo(code_of(rg[r].slot)), rg[r].slot, "older thread"); done->fetch_add(1); }
        });
        for (int r = 0; r < rounds; ++r) { reg(rg[r].slot, rg[r].cbk, rg[r].tag, rg[r].api); phase->store(r + 1); while (done->load() < (r + 1) * nt) sched_yield(); }
        for (auto &h : th) h.join();
    }
    check_all("end"); delete phase; delete done;
}
}  // namespace
