// Expression evaluation scenarios: C04, C05, C06, C07, C12, C15, C16, C17
#include "h.h"
#include "BigInteger.h"
#include "BigIntegerImpl.h"
#include "Status.h"
#include "expr.h"
#include "infixExpr/SymbolTable.h"
#include <map>
#include <memory>
#include <mutex>
#include <sched.h>
#include <set>
using namespace pgbn;
using pgbn::expr::eval;
using pgbn::expr::peval;
using pgbn::infixExpr::Func;
using pgbn::infixExpr::Hooks;
using pgbn::infixExpr::SymbolTable;
using pgbn::infixExpr::Value;

namespace {
const int MAXSITE = 256;
struct Shared {                        // plain data written by the caller before the evaluation, read in user functions
    int weight[MAXSITE]; int hits[MAXSITE];
} *sh;
struct CallLog { int calls[MAXSITE]; int threw[MAXSITE]; int total; } *clog_;
bool g_throwing[MAXSITE]; int g_yield[MAXSITE]; int g_exc[MAXSITE];      // what a throwing site throws
// exceptions of a known family, with an identity
struct BoomStd : std::runtime_error { int id; explicit BoomStd(int i) : std::runtime_error("boom " + std::to_string(i)), id(i) {} };
struct BoomMem : std::bad_alloc { int id; explicit BoomMem(int i) : id(i) {} };
const int NEXC = 5;
const char *excname[NEXC] = {"Boom", "BoomStd (a runtime_error)", "BoomMem (a bad_alloc)", "std::out_of_range", "int"};
[[noreturn]] void raise_at(int s) {
    switch (g_exc[s]) { case 1: throw BoomStd(s); case 2: throw BoomMem(s); case 3: throw std::out_of_range("site " + std::to_string(s)); case 4: throw int(s); default: throw Boom{s}; }
}
int g_nest_threads = 1;

int small(const Value &v) { return (int)(v.toU64() & 0xffff); }

void reg(const char *name, int argc, std::function<Value(Func::ArgType)> f) { SymbolTable::getInstance()->registe(name, SymbolTable::Symbol{Func{std::move(f), argc}}); }

// a function with an identified call site: fid(site, x) -> x
Value fid(std::vector<Value> &a) {
    int s = small(a.at(0)) % MAXSITE;
    { NoSim n; clog_->calls[s]++; clog_->total++; }
    for (int i = 0; i < g_yield[s]; ++i) sched_yield();
    if (g_throwing[s]) { { NoSim n; clog_->threw[s]++; } raise_at(s); }
    return a.at(1);
}
// functions without arguments, one call site each: fz0() ... -> 0, 1, 2, 0, ...
const int ZSITE = 200, NZ = 16;
template <int K> Value fz(std::vector<Value> &) {
    const int s = ZSITE + K;
    { NoSim n; clog_->calls[s]++; clog_->total++; }
    for (int i = 0; i < g_yield[s]; ++i) sched_yield();
    if (g_throwing[s]) { { NoSim n; clog_->threw[s]++; } raise_at(s); }
    return Value((std::int64_t)(K % 3));
}
Value fsum(std::vector<Value> &a) { Value r(0); for (auto &x : a) r.addAssign(x); return r; }
Value fmac(std::vector<Value> &a) { Value r = a.at(0); r.mulAssign(a.at(1)); r.addAssign(a.at(2)); return r; }
Value fown(std::vector<Value> &a) {    // reads and writes plain caller data
    int s = small(a.at(0)) % MAXSITE; sh->hits[s] = sh->weight[s] + 1; return Value((std::int64_t)sh->weight[s]);
}
Value fnest(std::vector<Value> &a) {   // an evaluation inside an evaluation
    std::string e = "(" + a.at(0).toString(10) + ")*3+fsum(1,2,kb)";
    BigInteger r = g_nest_threads ? peval(e, g_nest_threads) : eval(e);
    return Value(r.toString(10), 10);
}
Value frec(std::vector<Value> &a) {    // evaluations inside evaluations inside evaluations
    int n = small(a.at(0)); if (n <= 0) return Value(3);
    std::string e = "frec(" + std::to_string(n - 1) + ")*2+fsum(ka," + std::to_string(n) + ")";
    BigInteger r = g_nest_threads ? peval(e, g_nest_threads) : eval(e);
    return Value(r.toString(10), 10);
}
template <int K> void reg_z() { if constexpr (K < NZ) { static const char name[] = {'f', 'z', (char)('a' + K), 0}; reg(name, 0, fz<K>); reg_z<K + 1>(); } }
void register_all(bool z = false) {
    if (z) reg_z<0>();
    reg("fid", 2, fid); reg("fsum", -1, fsum); reg("fmac", 3, fmac); reg("fown", 1, fown); reg("fnest", 1, fnest); reg("frec", 1, frec);
    auto st = SymbolTable::getInstance();
    st->registe("ka", SymbolTable::Symbol{Value{12345}});
    st->registe("kb", SymbolTable::Symbol{Value{StringArg("98765432109876543210987654321"), 10}});
    st->registe("kz", SymbolTable::Symbol{Value{0}});
    Value kc = *&st->get("kb")->as<Value>(); kc.negate();                  // negative, shares the digits of kb
    st->registe("kc", SymbolTable::Symbol{std::move(kc)});
    st->registe("km", SymbolTable::Symbol{Value{-7}});
    Value kn(-12345); kn.shiftLeftAssign(96); st->registe("kn", SymbolTable::Symbol{std::move(kn)});     // its low words are zero
}
void fresh_log() { NoSim n; if (!clog_) clog_ = new CallLog(); *clog_ = CallLog(); }
void setup() {
    { NoSim n; sh = new Shared(); }
    fresh_log(); memset(g_throwing, 0, sizeof g_throwing); memset(g_yield, 0, sizeof g_yield); g_nest_threads = 1;
}

struct Gen {
    int sites = 0, owns = 0, zs = 0, budget, maxsites; bool conds, nest, own, calls, z = false; int nodes = 0;
    static std::string lit() {
        switch (choice(7)) {
        case 5: return "0x" + std::string(1, (char)('1' + choice(9))) + std::string(choice(2) ? 15 : 7, '0') + std::string(choice(2) ? 8 : 0, '0') + (char)('0' + choice(3));   // agree in their low words
        case 0: return std::to_string(choice(3));
        case 1: return std::to_string(1 + choice(99));
        case 2: return std::to_string(4294967290u + choice(12)) + "";
        case 3: return "18446744073709551" + std::to_string(600 + choice(30));
        case 4: { std::string s = std::to_string(1 + choice(9)); uint32_t n = 20 + choice(20); uint32_t d = choice(10); for (uint32_t i = 0; i < n; ++i) s += (char)('0' + (d + i * (1 + d)) % 10); return s; }
        default: { static const char *h[] = {"0xffffffff", "0x100000000", "0xffffffffffffffff", "0x7fffffffffffffff", "036xzz", "02x1011", "0x80000000", "0755", "037777777777", "01777777777777777777777"}; return h[choice(10)]; }
        }
    }
    std::vector<int> all() const { std::vector<int> v; for (int i = 0; i < sites && i < MAXSITE; ++i) v.push_back(i); for (int i = 0; i < zs; ++i) v.push_back(ZSITE + i); return v; }     // the call sites
    static std::string neg(const std::string &s) { return "(" + s + ")"; }
    std::string go(int d) {
        ++nodes; --budget;
        if (d <= 0 || budget <= 0) { uint32_t k = choice(z ? 11 : 8); if (k < 3 && choice(3) == 0) return k == 0 ? "kc" : k == 1 ? "km" : "kn"; if (k >= 8) { if (zs < NZ) return std::string("fz") + (char)('a' + zs++) + "()"; k = 3; } return k == 0 ? "ka" : k == 1 ? "kb" : k == 2 ? "kz" : lit(); }
        switch (choice(20)) {
        case 0: case 1: return neg(go(d - 1) + "+" + go(d - 1));
        case 2: case 3: return neg(go(d - 1) + "-" + go(d - 1));
        case 4: case 5: return neg(go(d - 1) + "*" + go(d - 1));
        case 6: { static const char *dv[] = {"7", "4294967296", "18446744073709551617", "-3", "1"}; return neg(go(d - 1) + "/" + neg(dv[choice(5)])); }
        case 7: { static const char *op[] = {"&", "|", "^"}; std::string o = op[choice(3)]; return neg(go(d - 1) + o + go(d - 1)); }
        case 8: { static const char *op[] = {"==", "!=", "<"}; std::string o = op[choice(3)]; return neg(go(d - 1) + o + go(d - 1)); }
        case 9: return neg("-" + go(d - 1));
        case 10: return neg("~" + go(d - 1));
        case 11: { std::string a = go(d - 1); return neg(a + (choice(2) ? "<<" : ">>") + std::to_string(choice(70))); }
        case 12: { std::string b = std::to_string(2 + choice(11)); return neg(b + "**" + std::to_string(1 + choice(9))); }
        case 13: return neg(std::to_string(choice(9)) + "!");
        case 14: { uint32_t n = choice(4); std::string s = "fsum("; for (uint32_t i = 0; i < n; ++i) s += (i ? "," : "") + go(d - 1); return s + ")"; }
        case 15: return "fmac(" + go(d - 1) + "," + go(d - 1) + "," + go(d - 1) + ")";
        case 16: case 17: if (calls && sites < maxsites) { int s = sites++; return "fid(" + std::to_string(s) + "," + go(d - 1) + ")"; } return neg("+" + go(d - 1));
        case 18: if (conds) { std::string c = go(d - 1), a = go(d - 1), b = go(d - 1); return neg(c + "?" + a + ":" + b); } return go(d - 1);
        default:
            if (nest && choice(8) == 0) return "frec(" + std::to_string(choice(5)) + ")";
            if (nest && choice(4) == 0) return "fnest(" + std::to_string(1 + choice(1000)) + ")";
            if (own && owns < 100) { int s = 100 + owns++; return "fown(" + std::to_string(s) + ")"; }
            return neg(go(d - 1) + "-" + go(d - 1));
        }
    }
};
Gen mkgen(bool conds, bool calls, bool nest, bool own) { Gen g; g.conds = conds; g.calls = calls; g.nest = nest; g.own = own; g.maxsites = 60; g.budget = 60; return g; }
std::string shape(Gen &g, bool large = false) {
    switch (large && choice(12) == 0 ? 8 + choice(2) : choice(8)) {
    case 9: {                                // very deep
        std::string s = g.go(1); uint32_t n = 40 + choice(60), ev = 3 + choice(20); for (uint32_t i = 0; i < n; ++i) { uint32_t k = choice(4); if (i % ev == 0) { s = "(" + s + "-" + g.go(1) + ")"; continue; } s = k == 0 ? "(1+" + s + ")" : k == 1 ? "(-" + s + ")" : k == 2 ? "fsum(" + s + ",2)" : "(" + s + "+3)"; } return s; }
    case 8: {                                // very many children, or very many nodes
        uint32_t n = 200 + choice(160), ev = 10 + choice(60); std::string s = choice(3) ? "fsum(" : "";
        if (s.empty()) { s = g.go(1); for (uint32_t i = 0; i < n; ++i) s += i % ev ? "+1" : "+" + g.go(1); return s; }
        for (uint32_t i = 0; i < n; ++i) s += (i ? "," : "") + (i % ev ? std::to_string(i % 10) : g.go(1));
        return s + ")"; }
    case 0: { std::string s = g.go(1); uint32_t n = 30 + choice(12); for (uint32_t i = 0; i < n; ++i) { static const char *op[] = {"+", "-", "*"}; s += op[choice(3)] + std::to_string(1 + choice(9)); } return s; }   // a long chain: more nodes than the node buffer holds
    case 1: { std::string s = g.go(2); uint32_t n = 10 + choice(25); for (uint32_t i = 0; i < n; ++i) s = choice(2) ? "(-" + s + ")" : "(" + s + "+1)"; return s; }                                   // deep
    case 2: { std::string s = "fsum("; uint32_t n = 5 + choice(10); for (uint32_t i = 0; i < n; ++i) s += (i ? "," : "") + g.go(1); return s + ")"; }                                            // wide
    case 3: case 4: return g.go(2);
    case 5: case 6: return g.go(3);
    default: return g.go(4);
    }
}
int pick_threads(bool big = false) { static const int t[] = {1, 2, 2, 3, 4, 6, 0, -1}; if (big && choice(24) == 0) return choice(3) ? 9 + (int)choice(12) : 21 + (int)choice(20); int k = t[choice(8)]; if (k == -1) { static const int np[] = {4, 0, 1, 2, 3}; set_nprocs(np[choice(5)]); } return k; }
std::string clip(const std::string &s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }

// the text of a number, in memory of the harness
void keep(std::string &to, const BigInteger &r) { std::string v = r.toString(10); NoSim n; to.assign(v.data(), v.size()); }
struct Out { bool threw = false; int boom = -1, exc = 0; bool badalloc = false; std::string other; std::string val; };
template <class F> Out outcome(F f) {
    Out o;
    try { BigInteger r = f(); set_tolerate(nullptr); keep(o.val, r); }
    catch (const Boom &b) { o.threw = true; o.boom = b.id; }
    catch (const BoomStd &b) { o.threw = true; o.boom = b.id; o.exc = 1; if (b.what() != "boom " + std::to_string(b.id)) violation("peval-other-exception", "the message of an exception was lost: %s", b.what()); }
    catch (const BoomMem &b) { o.threw = true; o.boom = b.id; o.exc = 2; }
    catch (const std::out_of_range &b) { o.threw = true; if (!strncmp(b.what(), "site ", 5)) { o.boom = atoi(b.what() + 5); o.exc = 3; } else { NoSim n; o.other = std::string("std::out_of_range: ") + b.what(); } }
    catch (int b) { o.threw = true; o.boom = b & (MAXSITE - 1); o.exc = 4; }
    catch (const std::bad_alloc &) { o.threw = true; o.badalloc = true; }
    catch (const std::exception &e) { NoSim n; o.threw = true; o.other = std::string(typeid(e).name()) + ": " + e.what(); }
    return o;
}
std::string str(const Out &o) { if (!o.threw) return "value " + clip(o.val); if (o.boom >= 0) return std::string("exception ") + excname[o.exc] + " of call site " + std::to_string(o.boom); if (o.badalloc) return "std::bad_alloc"; return "exception " + o.other; }


// A reference evaluator of its own for the generated expressions: which calls are made, and with which value the whole ends.
// (The operations on numbers are the library's.)
struct Model {
    const char *p; int calls[MAXSITE]; bool live = true;
    static Value run(const std::string &e, int *calls) { Model m; m.p = e.c_str(); memset(m.calls, 0, sizeof m.calls); Value v = m.cond(); if (*m.p) { fprintf(stderr, "the model cannot read \"%s\" at \"%s\"\n", e.c_str(), m.p); abort(); } memcpy(calls, m.calls, sizeof m.calls); return v; }
    bool at(const char *s) { size_t n = strlen(s); if (strncmp(p, s, n)) return false; p += n; return true; }
    Value cond() {
        Value c = bin(0); if (!at("?")) return c;
        bool l = live, yes = l && !c.isZero();
        live = l && yes; Value a = cond(); if (!at(":")) abort();
        live = l && !yes; Value b = cond(); live = l;
        return yes ? a : b;
    }
    const char *op(int level) {
        static const char *const ops[8][3] = {{"|", 0, 0}, {"^", 0, 0}, {"&", 0, 0}, {"==", "!=", 0}, {"<", 0, 0}, {"<<", ">>", 0}, {"+", "-", 0}, {"*", "/", 0}};
        for (int i = 0; i < 3 && ops[level][i]; ++i) {
            const char *o = ops[level][i];
            if (!strcmp(o, "<") && p[0] == '<' && p[1] == '<') continue;
            if (!strcmp(o, "*") && p[0] == '*' && p[1] == '*') continue;
            if (at(o)) return o;
        }
        return nullptr;
    }
    Value bin(int level) {
        if (level == 8) return pow();
        Value v = bin(level + 1);
        while (const char *o = op(level)) {
            Value r = bin(level + 1); if (!live) continue;
            switch (o[0]) {
            case '|': v.orAssign(r); break; case '^': v.xorAssign(r); break; case '&': v.andAssign(r); break;
            case '=': v = Value(v.cmp(r) == 0); break; case '!': v = Value(v.cmp(r) != 0); break;
            case '<': if (o[1]) v.shiftLeftAssign(r.toU64()); else v = Value(v.cmp(r) < 0); break;
            case '>': v.shiftRightAssign(r.toU64()); break;
            case '+': v.addAssign(r); break; case '-': v.subAssign(r); break; case '*': v.mulAssign(r); break; case '/': v.divAssign(r); break;
            }
        }
        return v;
    }
    Value pow() {
        Value v = unary();
        while (at("**")) { Value n = unary(), r(1); if (!live) continue; for (uint64_t i = n.toU64(); i; --i) r.mulAssign(v); v = r; }
        return v;
    }
    Value unary() {
        if (at("+")) return unary();
        if (at("-")) { Value v = unary(); v.negate(); return v; }
        if (at("~")) { Value v = unary(); if (live) v.notSelf(); return v; }
        Value v = prim();
        while (*p == '!' && p[1] != '=') { ++p; if (!live) continue; Value r(1); for (uint64_t i = v.toU64(); i > 1; --i) r.mulAssign((std::int64_t)i); v = r; }
        return v;
    }
    std::vector<Value> args() { std::vector<Value> a; while (!at(")")) { if (!a.empty() && !at(",")) abort(); a.push_back(cond()); } return a; }
    Value prim() {
        if (at("(")) { Value v = cond(); if (!at(")")) abort(); return v; }
        if (at("ka")) return Value(12345);
        if (at("kb")) return Value(StringArg("98765432109876543210987654321"), 10);
        if (at("kz")) return Value(0);
        if (at("kc")) return Value(StringArg("-98765432109876543210987654321"), 10);
        if (at("km")) return Value(-7);
        if (at("kn")) { Value v(-12345); v.shiftLeftAssign(96); return v; }
        if (at("fid(")) { auto a = args(); if (live) calls[small(a.at(0)) % MAXSITE]++; return a.at(1); }
        if (p[0] == 'f' && p[1] == 'z') { int k = p[2] - 'a'; p += 3; if (!at("()")) abort(); if (live) calls[ZSITE + k]++; return Value((std::int64_t)(k % 3)); }
        if (at("fsum(")) { auto a = args(); return fsum(a); }
        if (at("fmac(")) { auto a = args(); return fmac(a); }
        if (at("fown(")) { auto a = args(); return Value((std::int64_t)sh->weight[small(a.at(0)) % MAXSITE]); }
        int radix = 10;
        if (p[0] == '0' && p[1] == 'x') { radix = 16; p += 2; } else if (p[0] == '0' && isdigit(p[1]) && p[2] == 'x') { radix = p[1] - '0'; p += 3; } else if (p[0] == '0' && isdigit(p[1]) && isdigit(p[2]) && p[3] == 'x') { radix = (p[1] - '0') * 10 + p[2] - '0'; p += 4; }
        else if (p[0] == '0' && isdigit(p[1])) { radix = 8; p += 1; }
        const char *b = p; while (isalnum(*p)) ++p;
        std::string t(b, (size_t)(p - b));
        return Value(t, radix);
    }
};

// what lives as long as the process (tables, registries) exists before the heap is looked at
void warm_up(const std::string &e, int th) { outcome([&] { return peval(e, th); }); outcome([&] { return eval(e); }); }

// ---- C05 (C16, C04): peval == eval
void eval_equal() {
    setup(); register_all();
    Gen g = mkgen(true, true, choice(3) == 0, true);
    std::string e; { NoSim n; e = shape(g, is("C05") || is("C16")); }
    int th = pick_threads(is("C05") && g.nodes < 40 && !g.nest); g_nest_threads = (int)choice(3);
    for (int i = 0; i < g.sites && i < MAXSITE; ++i) g_yield[i] = choice(5) == 0 ? 2 : 0;
    for (int i = 0; i < g.owns; ++i) sh->weight[100 + i] = 3 + 7 * i;
    bool first = choice(2); int times = 1 + (choice(4) == 0);
    describe("peval of \"%s\" on %d thread(s), %s eval", clip(e).c_str(), th, first ? "after" : "before");
    Out a, b;
    if (first) a = outcome([&] { return eval(e); });
    if (a.threw) violation("exception", "eval of an expression without failing parts ends with %s", str(a).c_str());
    bool leaks = is("C16");
    if (leaks) warm_up(e, th);
    uint32_t mark = heap_mark(); int base = live_threads();
    memset(sh->hits, 0, sizeof sh->hits);
    for (int i = 0; i < times; ++i) {
        b = outcome([&] { return peval(e, th); });
        check_threads(base, "peval has returned");
        if (i == 0) { for (int k = 0; k < g.owns; ++k) if (sh->hits[100 + k] && sh->hits[100 + k] != sh->weight[100 + k] + 1) violation("lost-write", "what a user function wrote during peval is not visible after it"); }
        if (!first && i == 0) a = outcome([&] { return eval(e); });
        if (b.threw != a.threw || b.val != a.val) violation("peval-differs", "peval of \"%s\" on %d thread(s) gives %s, eval gives %s", clip(e).c_str(), th, str(b).c_str(), str(a).c_str());
    }
    probe(20); if (g.nodes > 32) probe(21);
    if (leaks) { a = Out(); b = Out(); check_leaks(mark, "peval has returned and its result is gone"); }
}
// expressions with thousands of nodes: every index, count and buffer of the evaluator has room for them
void eval_large(bool huge) {
    set_light(); setup(); register_all();
    reg("fcount", -1, [](std::vector<Value> &a) -> Value { Value r((std::int64_t)a.size()); if (!a.empty()) { r.mulAssign((std::int64_t)1000003); r.addAssign(a.front()); r.addAssign(a.back()); r.addAssign(a[a.size() / 2]); } return r; });
    uint32_t n = huge ? 65500 + choice(2000) : 300 + choice(choice(3) ? 1200 : 6000), k = choice(4); int th = 1 + (int)choice(4);
    std::string e;
    { NoSim s; e.reserve(n * 8);
      uint32_t ev = 3 + choice(97); static const char *names[] = {"ka", "kz", "kb"};
      if (huge) k = choice(2);
      if (k == 2) n = 300 + n % 400;      // the recursion of eval is as deep as the chain is long: stacks are 1 MB here
      if (k == 0) { e = "fcount("; for (uint32_t i = 0; i < n; ++i) { if (i) e += ','; e += names[i % ev == 0 ? 1 + i % 2 : 0]; } e += ')'; }                                             // one parent, very many children
      else if (k == 1) { e = "fcount("; for (uint32_t i = 0; i < n / 64; ++i) { if (i) e += ','; e += "fsum("; for (int j = 0; j < 63; ++j) { if (j) e += ','; e += names[(i + (uint32_t)j) % ev == 0 ? 1 : 0]; } e += ')'; } e += ')'; }  // very many nodes
      else if (k == 2) { e = "ka"; for (uint32_t i = 0; i < n; ++i) { e += i % ev ? "+ka" : "-kb"; } }                                                                                 // a long chain
      else { e = "fcount("; for (uint32_t i = 0; i < n / 4; ++i) { if (i) e += ','; e += "(ka*kb-kz)"; } e += ')'; } }
    describe("peval of an expression of about %u nodes (shape %u) on %d thread(s)", n, k, th);
    Out a = outcome([&] { return eval(e); });
    int base = live_threads();
    Out b = outcome([&] { return peval(e, th); });
    check_threads(base, "peval has returned");
    if (a.threw) violation("exception", "eval of a large expression ends with %s", str(a).c_str());
    if (b.threw || b.val != a.val) violation("peval-differs", "peval of an expression of about %u nodes on %d thread(s) gives %s, eval gives %s", n, th, str(b).c_str(), str(a).c_str());
    probe(huge ? 29 : 28);
}
// ---- C06 (C16): a failing part
// failing parts of large expressions
void eval_throw_large() {
    set_light(); setup(); register_all();
    uint32_t n = choice(3) ? 200 + choice(800) : 1000 + choice(4000), k = choice(4); int th = 1 + (int)choice(6), sites = 1 + (int)choice(8);
    std::string e;
    { NoSim s;
      std::set<uint32_t> at; if (k == 2) n = 200 + n % 200; if (k == 3) n /= 3;
      while ((int)at.size() < sites) at.insert(choice(4) == 0 ? choice(3) : choice(4) == 0 ? n - 1 - choice(3) : choice(n));
      int used = 0; auto leaf = [&](uint32_t i, const char *x) { return at.count(i) ? "fid(" + std::to_string(used++) + "," + x + ")" : std::string(x); };
      if (k == 0) { e = "fsum("; for (uint32_t i = 0; i < n; ++i) { if (i) e += ','; e += leaf(i, "ka"); } e += ')'; }
      else if (k == 1) { e = "fsum("; for (uint32_t i = 0; i < n; ++i) { if (i % 40 == 0) e += i ? "),fsum(" : "fsum("; else e += ','; e += leaf(i, "ka"); } e += "))"; }
      else if (k == 2) { e = leaf(0, "ka"); for (uint32_t i = 1; i < n; ++i) { e += i % 9 ? "+" : "-"; e += leaf(i, "kb"); } }
      else { e = "fsum("; for (uint32_t i = 0; i < n; ++i) { if (i) e += ','; e += "(" + leaf(i, "ka") + "*kb-kz)"; } e += ')'; } }
    memset(g_exc, 0, sizeof g_exc); int nt = 1 + (int)choice((uint32_t)sites), first = -1;
    for (int i = 0; i < nt; ++i) { int s = (int)choice((uint32_t)sites); g_throwing[s] = true; g_exc[s] = (int)choice(NEXC); if (first < 0) first = s; }
    describe("an expression of about %u parts (shape %u) on %d thread(s), up to %d of %d call sites throw (site %d: %s)", n, k, th, nt, sites, first, excname[g_exc[first]]);
    fresh_log();
    Out a = outcome([&] { return eval(e); });
    if (!a.threw || a.boom < 0) violation("exception", "eval of a large expression with a throwing user function ends with %s", str(a).c_str());
    fresh_log(); int base = live_threads();
    Out b = outcome([&] { return peval(e, th); });
    check_threads(base, "peval has ended");
    if (!b.threw) violation("peval-no-exception", "eval of a large expression ends with %s, peval on %d thread(s) returns a value", str(a).c_str(), th);
    if (b.boom < 0 || b.boom >= MAXSITE || !clog_->threw[b.boom] || g_exc[b.boom] != b.exc) violation("peval-other-exception", "peval of a large expression ends with %s, which no part of the expression raised", str(b).c_str());
    if (b.boom != a.boom) violation("peval-other-exception", "several parts of a large expression fail: eval ends with %s, peval on %d thread(s) with %s", str(a).c_str(), th, str(b).c_str());
    memset(g_throwing, 0, sizeof g_throwing);
    a = outcome([&] { return eval(e); }); b = outcome([&] { return peval(e, th); });
    if (a.threw || b.threw || a.val != b.val) violation("later-evaluation", "after a failed evaluation of a large expression, eval gives %s and peval gives %s", str(a).c_str(), str(b).c_str());
    probe(38);
}
// a literal hook that throws while the expression is being read
void eval_hook_throw() {
    setup(); register_all();
    Gen g = mkgen(true, true, false, false); g.budget = 25; const int SITE = 150;
    std::string e; { NoSim n; e = g.go((int)choice(4)) + "+" + std::to_string(choice(99)); }
    int th = pick_threads(); static int count, at; count = 0; at = 0; memset(g_exc, 0, sizeof g_exc); g_exc[SITE] = (int)choice(NEXC);
    auto *h = Hooks::getInstance(); auto old = h->literal2Value;
    h->literal2Value = [](Value &v, int radix, const std::string &a, const std::string &) { if (++count == at) { { NoSim n; clog_->threw[SITE]++; } raise_at(SITE); } bool ok = true; v.fromString(a, radix, &ok); v.addAssign((std::int64_t)2); return ok; };
    Out v = outcome([&] { return eval(e); });
    if (v.threw || !count) violation("exception", "eval of an expression without failing parts ends with %s after %d literals", str(v).c_str(), count);
    int n = count, k = 1 + (int)choice((uint32_t)n);
    describe("\"%s\" on %d thread(s), the literal hook throws %s at literal %d of %d", clip(e).c_str(), th, excname[g_exc[SITE]], k, n);
    auto one = [&](bool par) { count = 0; at = k; return outcome([&] { return par ? peval(e, th) : eval(e); }); };
    if (is("C16")) { one(true); at = 0; warm_up(e, th); }
    uint32_t mark = heap_mark(); int base = live_threads();
    for (int i = 0; i < 2; ++i) {
        Out a = one(i);
        check_threads(base, "the evaluation has ended");
        if (!a.threw) violation("peval-no-exception", "%s of \"%s\" returns %s although its literal hook threw", i ? "peval" : "eval", clip(e).c_str(), str(a).c_str());
        if (a.boom != SITE || a.exc != g_exc[SITE]) violation("peval-other-exception", "%s ends with %s, its literal hook threw %s", i ? "peval" : "eval", str(a).c_str(), excname[g_exc[SITE]]);
    }
    if (is("C16")) check_leaks(mark, "the evaluations have thrown and the exceptions are gone");
    at = 0;
    Out a = outcome([&] { return eval(e); }), b = outcome([&] { return peval(e, th); });
    if (a.threw || b.threw || a.val != v.val || b.val != v.val) violation("later-evaluation", "after a literal hook has thrown, eval gives %s and peval gives %s, before it was %s", str(a).c_str(), str(b).c_str(), str(v).c_str());
    h->literal2Value = old; probe(40);
}
void eval_throw() {
    setup(); bool z = choice(4) == 0; register_all(z);
    Gen g = mkgen(true, true, false, false); g.z = z;
    std::string e; { NoSim n; e = shape(g); if (g.sites + g.zs == 0) { e = "fid(0," + e + ")" + (choice(2) ? "+" + g.go(1) : ""); g.sites = 1; } }
    auto sites = g.all(); int th = pick_threads(); int nt = choice(2) ? 1 : 2 + choice(3), t[4];
    memset(g_exc, 0, sizeof g_exc); for (int i = 0; i < nt; ++i) { t[i] = sites[choice((uint32_t)sites.size())]; g_throwing[t[i]] = true; g_exc[t[i]] = (int)choice(NEXC); }
    for (int i : sites) g_yield[i] = choice(5) == 0 ? 2 : 0;
    describe("\"%s\" on %d thread(s), call site(s) %d%s throw(s) %s", clip(e).c_str(), th, t[0], nt > 1 ? (" and " + std::to_string(nt - 1) + " more").c_str() : "", excname[g_exc[t[0]]]);
    fresh_log();
    Out a = outcome([&] { return eval(e); });
    if (!a.threw) { for (bool &x : g_throwing) x = false; }      // the failing part is in a branch not taken
    else if (a.boom < 0) violation("exception", "eval replaces the exception of a user function by %s", str(a).c_str());
    if (is("C16")) warm_up(e, th);
    fresh_log();
    uint32_t mark = heap_mark(); int base = live_threads();
    Out b = outcome([&] { return peval(e, th); });
    check_threads(base, "peval has ended");
    if (a.threw) {
        probe(22);
        if (!b.threw) violation("peval-no-exception", "eval of \"%s\" ends with %s, peval on %d thread(s) returns %s", clip(e).c_str(), str(a).c_str(), th, str(b).c_str());
        if (b.boom < 0) violation("peval-other-exception", "eval of \"%s\" ends with %s, peval on %d thread(s) ends with %s", clip(e).c_str(), str(a).c_str(), th, str(b).c_str());
        if (b.boom >= MAXSITE || !clog_->threw[b.boom] || g_exc[b.boom] != b.exc) violation("peval-other-exception", "peval ends with %s, which no part of the expression raised", str(b).c_str());
        if (b.boom != a.boom) violation("peval-other-exception", "several parts of \"%s\" fail: eval ends with %s, peval on %d thread(s) with %s", clip(e).c_str(), str(a).c_str(), th, str(b).c_str());
    } else if (b.threw || b.val != a.val) violation("peval-differs", "peval gives %s, eval gives %s", str(b).c_str(), str(a).c_str());
    a = Out(); b = Out();
    if (is("C16")) check_leaks(mark, "peval has thrown and the exception is gone");
    memset(g_throwing, 0, sizeof g_throwing);
    CallLog *lt; { NoSim n; lt = new CallLog(*clog_); } fresh_log();
    a = outcome([&] { return eval(e); });
    for (int s : sites) if (lt->calls[s] > clog_->calls[s]) violation(clog_->calls[s] ? "call-count" : "branch-not-taken", "in \"%s\" without failing parts eval makes the call at site %d %d time(s), peval with failing parts makes it %d time(s)", clip(e).c_str(), s, clog_->calls[s], lt->calls[s]);
    b = outcome([&] { return peval(e, th); });
    if (a.threw || b.threw || a.val != b.val) violation("later-evaluation", "after a failed evaluation, eval gives %s and peval gives %s", str(a).c_str(), str(b).c_str());
}
// ---- C07: peval when threads cannot be created
void eval_threadfail() {
    setup(); register_all();
    Gen g = mkgen(true, true, choice(3) == 0, false);
    std::string e; { NoSim n; e = g.go(3); }
    g_nest_threads = (int)choice(3); int th = 1 + (int)choice(5); bool nofault = choice(4) == 0; int np = -1;
    int at = 1 + (int)choice((uint32_t)th), len = 1 + (int)choice(3);
    if (choice(3) == 0) { static const int nps[] = {0, 1, 2}; np = nps[choice(3)]; set_nprocs(np); th = -1; at = 1 + (int)choice(3); }
    describe("peval of \"%s\" on %d thread(s) (CPU count %d), %s", clip(e).c_str(), th, np, nofault ? "no thread refused" : ("thread " + std::to_string(at) + " refused").c_str());
    Out a = outcome([&] { return eval(e); });
    bool warm = choice(4) != 0;
    if (warm) warm_up(e, th);
    uint32_t mark = heap_mark(); int base = live_threads();
    if (!nofault) arm_thread_nth((uint32_t)at, (uint32_t)len);
    Out b = outcome([&] { return peval(e, th); });
    disarm_thread();
    if (!thread_fired() && b.threw) violation("exception", "peval on %d threads (CPU count %d) throws %s although no thread was refused", th, np, str(b).c_str());
    if (!b.threw && b.val != a.val) violation("peval-differs", "peval gives %s, eval gives %s", str(b).c_str(), str(a).c_str());
    check_threads(base, "peval has ended");
    bool threw = b.threw; b = Out(); (void)threw;
    if (warm) check_leaks(mark, "peval has ended");
    Out c = outcome([&] { return peval(e, 2); });
    if (c.threw || c.val != a.val) violation("later-evaluation", "a later peval gives %s", str(c).c_str());
    if (thread_fired()) probe(23); probe(24);
}
// ---- C12: memory runs out
void eval_oom(bool par) {
    setup(); register_all();
    Gen g = mkgen(true, true, choice(4) == 0, false); g.budget = 25;
    std::string e; { NoSim n; e = choice(6) ? g.go(1 + (int)choice(3)) : shape(g); }
    int th = 1 + (int)choice(3); g_nest_threads = (int)choice(2);
    describe("%s of \"%s\" on %d thread(s), ", par ? "peval" : "eval", clip(e).c_str(), th);
    bool warm = choice(2);
    Out a; uint64_t allocs = 300;
    if (warm) { uint64_t c0 = heap_count(); a = outcome([&] { return par ? peval(e, th) : eval(e); }); allocs = heap_count() - c0; a = outcome([&] { return eval(e); }); }
    else if (choice(2)) a = outcome([&] { return eval(e); });      // else: the very first use of the library
    if (a.threw) violation("exception", "eval without a failure ends with %s", str(a).c_str());
    uint32_t mark = heap_mark(); int base = live_threads(); uint64_t f0 = alloc_fired();
    uint32_t mode = choice(5);
    if (mode == 0) { arm_alloc_prob(1000 + 20000 * choice(4)); describe("random allocation failures"); }
    else { uint32_t k = 1 + choice((uint32_t)(allocs + allocs / 4 + 1)); uint32_t len = choice(3) ? 1 : 1 + choice(4); arm_alloc_nth(k, len); describe("allocation %u%s fails", k, len > 1 ? " (and following)" : ""); }
    Out b; bool done = false;
    try { BigInteger r = par ? peval(e, th) : eval(e); disarm_alloc(); done = true; keep(b.val, r); }
    catch (const std::bad_alloc &) { disarm_alloc(); b.threw = b.badalloc = true; }
    catch (const Boom &x) { disarm_alloc(); b.threw = true; b.boom = x.id; }
    catch (const std::exception &x) { disarm_alloc(); NoSim n; b.threw = true; b.other = std::string(typeid(x).name()) + ": " + x.what(); }
    (void)done;
    bool fired = alloc_fired() != f0; if (fired) probe(25); if (fired && !b.threw) probe(26);
    if (b.threw && !b.badalloc) violation("oom-other-exception", "%s ends with %s when memory runs out", par ? "peval" : "eval", str(b).c_str());
    if (b.threw && !fired) violation("exception", "%s throws %s although no allocation failed", par ? "peval" : "eval", str(b).c_str());
    if (a.val.empty()) a = outcome([&] { return eval(e); });
    if (!b.threw && b.val != a.val) violation("oom-wrong-value", "%s of \"%s\" returns %s after an allocation failed, the correct value is %s", par ? "peval" : "eval", clip(e).c_str(), str(b).c_str(), str(a).c_str());
    check_threads(base, "evaluation has ended");
    bool thrown = b.threw; b = Out();
    if (warm) check_leaks(mark, thrown ? "evaluation has thrown std::bad_alloc" : "evaluation has returned");
    Out c = outcome([&] { return choice(2) ? peval(e, th) : eval(e); });
    if (c.threw || c.val != a.val) violation("later-evaluation", "once memory is available again, evaluation gives %s, expected %s", str(c).c_str(), str(a).c_str());
}
// ---- C15: independent evaluations at the same time
void eval_many() {
    setup();
    int nth = 2 + (int)choice(2), per = 1 + (int)choice(2); bool before = choice(3) == 0;
    if (choice(12) == 0) { nth += 1 + (int)choice(4); per += (int)choice(3); }
    register_all();
    struct Job { std::string e; int th; std::string got, want; bool par; bool threw = false; };
    std::vector<Job> jobs;
    { NoSim n; for (int i = 0; i < nth * per; ++i) { Gen g = mkgen(true, false, choice(4) == 0, false); g.budget = 25; Job j; j.e = choice(3) ? g.go(1 + (int)choice(3)) : "kb" + std::string(choice(2) ? "*ka" : "+kb&ka"); j.par = choice(2); j.th = 1 + (int)choice(2); jobs.push_back(j); } }
    g_nest_threads = (int)choice(2);
    describe("%d threads, %d evaluations each:", nth, per); for (auto &j : jobs) describe(" [%s \"%s\"]", j.par ? "peval" : "eval", clip(j.e).c_str());
    if (before) for (auto &j : jobs) j.want = eval(j.e).toString(10);
    {
        std::vector<HThread> ts;
        for (int t = 0; t < nth; ++t) ts.emplace_back([&, t]() { for (int k = 0; k < per; ++k) { Job &j = jobs[(size_t)(t * per + k)]; j.got = (j.par ? peval(j.e, j.th) : eval(j.e)).toString(10); } });
        for (auto &t : ts) t.join();
    }
    for (auto &j : jobs) {
        if (!before) j.want = eval(j.e).toString(10);
        if (j.want != j.got) violation("interference", "%s of \"%s\" gives %s next to other evaluations, alone it gives %s", j.par ? "peval" : "eval", clip(j.e).c_str(), clip(j.got).c_str(), clip(j.want).c_str());
    }
    // shared constants are unchanged
    if (eval("ka").toString(10) != "12345" || eval("kb").toString(10) != "98765432109876543210987654321" || eval("kz").toString(10) != "0" || eval("km").toString(10) != "-7" || eval("kc").toString(10) != "-98765432109876543210987654321" || eval("kn>>96").toString(10) != "-12345") violation("interference", "a registered constant has changed");
    probe(27);
}
// literal hooks belong to the thread that installed them
thread_local std::string tl_want;
void eval_hooks() {
    setup(); register_all();
    struct Job { std::string e; int add, th; bool par, nest; std::string got, want, got2, plain; };
    int nth = 2 + (int)choice(2); std::vector<Job> jobs;
    { NoSim n; for (int i = 0; i < nth; ++i) { Gen g = mkgen(true, false, false, false); g.budget = 12; Job j; j.e = g.go((int)choice(3)) + "+" + std::to_string(5 + i); j.add = choice(3) ? 1 + i : 0; j.par = choice(2); j.th = 1 + (int)choice(2); j.nest = j.add && choice(3) == 0; jobs.push_back(j); } }
    static thread_local int inside; bool npar = choice(2);
    bool before = choice(2);
    auto hooked = [npar](Job &j, std::string &to) {
        auto *h = pgbn::infixExpr::Hooks::getInstance(); auto old = h->literal2Value;
        if (j.add) {
            int add = j.add; bool nest = j.nest; inside = 1;
            auto conv = [add, nest, npar](Value &v, int radix, const std::string &a, const std::string &) {
                bool ok = true;
                if (nest && !inside) {               // the hook itself evaluates something, whose literals it converts as well
                    inside = 1; std::string s = (npar ? peval("(20+3)*ka+fsum(4,5,6)", 2) : eval("(20+3)*ka+fsum(4,5,6)")).toString(10); inside = 0;
                    if (s != tl_want) violation("nested", "an evaluation inside a literal hook gives %s, outside it gives %s", clip(s).c_str(), clip(tl_want).c_str());
                }
                v.fromString(a, radix, &ok); v.addAssign((std::int64_t)add); return ok; };
            h->literal2Value = conv;
            { std::string w = eval("(20+3)*ka+fsum(4,5,6)").toString(10); NoSim n; tl_want = w; }
            inside = 0;
        }
        to = (j.par ? peval("fsum(" + j.e + ",1)", j.th) : eval("fsum(" + j.e + ",1)")).toString(10);
        if (j.add) h->literal2Value = old;
    };
    describe("%d threads, each with its own literal hook:", nth); for (auto &j : jobs) describe(" [%s \"%s\", literals +%d%s]", j.par ? "peval" : "eval", clip(j.e).c_str(), j.add, j.nest ? ", nested" : "");
    if (before) for (auto &j : jobs) hooked(j, j.want);
    {
        std::vector<HThread> ts;
        for (auto &j : jobs) ts.emplace_back([&j, &hooked]() { hooked(j, j.got); j.got2 = eval(j.e).toString(10); });
        for (auto &t : ts) t.join();
    }
    for (auto &j : jobs) {
        if (!before) hooked(j, j.want);
        j.plain = eval(j.e).toString(10);
        if (j.want != j.got) violation("interference", "%s of \"%s\" with a literal hook (+%d) gives %s next to other evaluations, alone it gives %s", j.par ? "peval" : "eval", clip(j.e).c_str(), j.add, clip(j.got).c_str(), clip(j.want).c_str());
        if (j.plain != j.got2) violation("interference", "eval of \"%s\" without a hook gives %s next to other evaluations, alone it gives %s", clip(j.e).c_str(), clip(j.got2).c_str(), clip(j.plain).c_str());
    }
    probe(19);
}
// ---- C18: what is registered for expressions stays in force until replaced
struct Sym { bool known = false, fn = false; int argc = 0; std::string val; };        // harness memory
const int NSYM = 400, NREG = 320;
Sym *syms;
const char *symname(int i) {
    static const char *odd[] = {"s", "S", "sa", "sA", "Sa", "s_", "_s", "_", "s1", "s11", "s1_", "abcdefghijklmnopqrstuvwxyz_0123456789", "abcdefghijklmnopqrstuvwxyz_0123456788", "x2", "xx", "e"};
    static char buf[NSYM][340]; if (i < 16) return odd[i]; if (buf[i][0]) return buf[i];
    if (i < 24) { static const int len[] = {64, 65, 65, 257, 257, 333, 24, 24}; for (int k = 0; k < len[i - 16]; ++k) buf[i][k] = "long_Name_0f_a_Constant_"[k % 24]; buf[i][len[i - 16] - 1] = "aabbcd_e"[i - 16]; return buf[i]; }
    snprintf(buf[i], 8, "n%03d", i); return buf[i];
}
std::string bigtext() { std::string v = std::to_string(1 + choice(999999)); if (choice(2)) for (int i = 0; i < 3; ++i) v += std::to_string(100000000 + choice(800000000)); return v; }
// fail: the fail-th allocation of the registration fails; what was registered before then stays in force
void do_register(int i, bool fn, int argc, const std::string &val, uint32_t fail = 0) {
    auto st = SymbolTable::getInstance(); const char *nm = symname(i);
    Value v(StringArg(val), 10);
    SymbolTable::Symbol s;
    if (!fn) s = SymbolTable::Symbol{Value{v}};
    else if (argc == 0) s = SymbolTable::Symbol{Func{[v](Func::ArgType) -> Value { return v; }, 0}};
    else if (argc == 1) s = SymbolTable::Symbol{Func{[v](Func::ArgType a) -> Value { Value r = a.at(0); r.addAssign(v); return r; }, 1}};
    else s = SymbolTable::Symbol{Func{[v](Func::ArgType a) -> Value { Value r = v; for (auto &x : a) r.addAssign(x); return r; }, -1}};
    if (fail) arm_alloc_nth(fail, 1);
    try { st->registe(nm, s); } catch (const std::bad_alloc &) { disarm_alloc(); if (!fail) throw; probe(17); return; }
    if (fail) disarm_alloc();
    NoSim n; syms[i].known = true; syms[i].fn = fn; syms[i].argc = argc; syms[i].val = val;
}
// an expression over known symbols, and the value it has on a thread whose literal hook adds `add` to every literal (0: no hook)
struct Ask { std::string e; int th; bool par; struct Term { long c; int sym; long arg; int after; int shape; }; std::vector<Term> t; };
int shape(int i) { return i < 0 ? 0 : syms[i].fn ? syms[i].argc + 2 : -1; }
Ask draw_ask(const Ask *again = nullptr) {
    // now and then the very text of before, whose names may mean something else by now
    if (again && choice(2) && !again->e.empty()) { bool same = true; for (auto &t : again->t) if (shape(t.sym) != t.shape) same = false; if (same) return *again; }
    Ask q; int n = 1 + (int)choice(5); q.par = choice(2); q.th = 1 + (int)choice(3);
    std::vector<int> known; { NoSim z; for (int i = 0; i < NSYM; ++i) if (syms[i].known) known.push_back(i); }
    for (int k = 0; k < n; ++k) {
        Ask::Term t; t.c = 1 + (long)choice(50); t.sym = known.empty() ? -1 : known[choice((uint32_t)known.size())]; t.arg = 1 + (long)choice(90); t.after = choice(4) == 0 ? (int)choice(9) + 1 : 0;
        t.shape = shape(t.sym); NoSim z; q.t.push_back(t);
        q.e += (k ? "+" : "") + std::to_string(t.c);
        if (t.sym < 0) continue;
        const Sym &s = syms[t.sym]; q.e += std::string("*") + symname(t.sym);
        if (s.fn) q.e += s.argc == 0 ? "()" : "(" + std::to_string(t.arg) + (t.after ? "." + std::to_string(t.after) + " " : "") + ")";
    }
    return q;
}
void ask(const Ask &q, int add, const char *where) {
    Value want(0); std::string w;
    for (auto &t : q.t) {
        if (t.sym < 0) { want.addAssign((std::int64_t)(t.c + add)); continue; }
        std::string v; bool fn; int argc; { NoSim z; v = syms[t.sym].val; fn = syms[t.sym].fn; argc = syms[t.sym].argc; }
        Value x(StringArg(v), 10); if (fn && argc) x.addAssign((std::int64_t)(t.arg + add + (add ? 7 * t.after : 0))); x.mulAssign((std::int64_t)(t.c + add)); want.addAssign(x);
    }
    { std::string s = want.toString(10); NoSim z; w.assign(s.data(), s.size()); }
    Out o = outcome([&] { return q.par ? peval(q.e, q.th) : eval(q.e); });
    if (o.threw || o.val != w) violation("registration-lost", "%s: %s of \"%s\" gives %s; what was registered last makes it %s%s", where, q.par ? "peval" : "eval", clip(q.e).c_str(), str(o).c_str(), clip(w).c_str(), add ? " (with the literal hook of this thread)" : "");
}
void set_hook(int add) { Hooks::getInstance()->literal2Value = [add](Value &v, int radix, const std::string &a, const std::string &b) { bool ok = true; v.fromString(a, radix, &ok); v.addAssign((std::int64_t)add); if (!b.empty()) v.addAssign((std::int64_t)7 * std::stol(b)); return ok; }; }
void eval_symbols() {
    setup(); { NoSim n; syms = new Sym[NSYM]; }
    int rounds = 2 + (int)choice(5), nres = (int)choice(3), mainadd = 0;
    describe("%d rounds of registering symbols on some thread and evaluating on others, %d resident threads;", rounds, nres);
    if (choice(2)) { mainadd = 1 + (int)choice(5); set_hook(mainadd); }
    // resident threads, alive through all rounds; some have a literal hook of their own
    std::atomic<int> *phase = new std::atomic<int>(0), *done = new std::atomic<int>(0);
    std::vector<Ask> *work; int *resadd; struct RegJob { bool any = false; int i[NREG], argc[NREG], n = 0; uint32_t fail[NREG]; bool fn[NREG]; std::string v[NREG]; } *rj; { NoSim n; work = new std::vector<Ask>[3]; resadd = new int[3](); rj = new RegJob(); }
    {
        std::vector<HThread> res; res.reserve(3);
        for (int r = 0; r < nres; ++r) { resadd[r] = choice(2) ? 10 + r : 0;
            res.emplace_back([=] { if (resadd[r]) set_hook(resadd[r]);
                for (int p = 1; p <= rounds; ++p) {
                    while (phase->load() < 2 * p - 1) sched_yield();
                    if (r == 0 && rj->any) for (int k = 0; k < rj->n; ++k) do_register(rj->i[k], rj->fn[k], rj->argc[k], rj->v[k], rj->fail[k]);
                    done->fetch_add(1);
                    while (phase->load() < 2 * p) sched_yield();
                    for (auto &q : work[r]) ask(q, resadd[r], "thread older than the registration");
                    done->fetch_add(1);
                } }); }
        Ask mine;
        for (int p = 1; p <= rounds; ++p) {
            bool bulk = choice(10) == 0; int who = (int)choice(3), n = bulk ? 20 + (int)choice(NREG - 20) : 1 + (int)choice(4), from = (int)choice(NSYM);
            { NoSim z; rj->any = who == 2 && nres; }
            rj->n = n; uint32_t oom = choice(5) ? 0 : 2;
            for (int k = 0; k < n; ++k) { int i = bulk ? (from + k) % NSYM : choice(2) ? (int)choice(24) : (int)choice(NSYM), argc = (int)choice(3) - 1; bool fn = choice(2); std::string v = bigtext(); uint32_t fl = oom && choice(oom) ? 1 + choice(6) : 0; NoSim z; rj->fail[k] = fl; rj->i[k] = i; rj->fn[k] = fn; rj->argc[k] = argc; rj->v[k].assign(v.data(), v.size()); }
            auto doit = [=] { for (int k = 0; k < rj->n; ++k) do_register(rj->i[k], rj->fn[k], rj->argc[k], rj->v[k], rj->fail[k]); };
            if (!rj->any) { if (who == 1) { HThread t(doit); t.join(); } else doit(); }
            phase->store(2 * p - 1); while (done->load() < nres * (2 * p - 1)) sched_yield();
            for (int r = 0; r < nres; ++r) { Ask last; { NoSim z; if (!work[r].empty()) last = work[r].back(); work[r].clear(); } int m = (int)choice(3); for (int k = 0; k < m; ++k) { Ask q = draw_ask(&last); NoSim z; work[r].push_back(q); } }
            std::vector<Ask> *fresh; { NoSim z; fresh = new std::vector<Ask>[2]; } int nf = (int)choice(3), fa[2] = {0, 0};
            for (int f = 0; f < nf; ++f) { if (choice(3) == 0) fa[f] = 20 + f; int m = 1 + (int)choice(2); for (int k = 0; k < m; ++k) { Ask q = draw_ask(); NoSim z; fresh[f].push_back(q); } }
            { Ask q = draw_ask(&mine); NoSim z; mine = q; }
            phase->store(2 * p);
            {
                std::vector<HThread> ts; ts.reserve(2);
                for (int f = 0; f < nf; ++f) ts.emplace_back([=, a = fa[f]] { bool late = a & 1; if (a && !late) set_hook(a); for (size_t k = 0; k < fresh[f].size(); ++k) { ask(fresh[f][k], a && (!late || k) ? a : 0, "new thread"); if (a && late && !k) set_hook(a); } });
                ask(mine, mainadd, "main thread");
                for (auto &t : ts) t.join();
            }
            while (done->load() < nres * 2 * p) sched_yield();
            if (choice(20) == 0) {                   // threads come and go
                int n = choice(3) ? 3 + (int)choice(20) : 40 + (int)choice(120), mod = 2 + (int)choice(3); Ask q = draw_ask();
                for (int i = 0; i < n; ++i) { HThread t([&q, i, mod] { if (i % mod == 0) set_hook(30 + i % 9); ask(q, i % mod == 0 ? 30 + i % 9 : 0, "one of many short threads"); }); t.join(); }
                ask(q, mainadd, "main thread, after others came and went");
            }
            if (choice(6) == 0) { mainadd = 1 + (int)choice(5); set_hook(mainadd); }
        }
        for (auto &t : res) t.join();
    }
    for (int i = 0; i < 4; ++i) { Ask q = draw_ask(); ask(q, mainadd, "end"); }
    delete phase; delete done; probe(18);
}
// ---- C17: each call exactly once, the branch not taken never
// many conditionals: side by side, in each other's branches, in each other's conditions
std::string many_conds(Gen &g) {
    auto f = [&](const std::string &x) { return g.sites < 199 ? "fid(" + std::to_string(g.sites++) + "," + x + ")" : x; };
    static const char *cs[] = {"kz", "ka", "ka<kb", "kb<ka", "ka==ka", "ka-12345", "0", "1"};
    auto c = [&]() { std::string x = cs[choice(8)]; return choice(4) ? x : f(x); };
    std::string e; uint32_t k = choice(4), n;
    if (k == 0) { n = 40 + choice(260); e = "fsum("; for (uint32_t i = 0; i < n; ++i) { if (i) e += ','; std::string w = c(), a = f("ka"); e += "(" + w + "?" + a + ":" + f(std::to_string(i % 7)) + ")"; } return e + ")"; }
    if (k == 1) { n = 20 + choice(60); for (uint32_t i = 0; i < n; ++i) { std::string w = choice(5) ? "kz" : c(); e += w + "?" + f("ka") + ":("; } e += f("kb"); return e + std::string(n, ')'); }
    if (k == 2) { n = 10 + choice(40); e = "1"; for (uint32_t i = 0; i < n; ++i) { std::string a = f(choice(2) ? "1" : "0"); e = "(" + e + "?" + a + ":" + f("ka") + ")"; } return e; }
    n = 10 + choice(30); e = f("ka"); for (uint32_t i = 0; i < n; ++i) { std::string w = c(), o = f("kb"); e = choice(2) ? "(" + w + "?(" + e + "+1):" + o + ")" : "(" + w + "?" + o + ":(" + e + "-1))"; } return e;
}
void eval_cond(bool many = false) {
    if (many) set_light();
    setup(); bool z = choice(3) == 0; register_all(z);
    Gen g = mkgen(true, true, false, false); g.z = z;
    std::string e;
    if (many) { NoSim n; e = many_conds(g); }
    else { NoSim n; switch (choice(4)) {
        case 0: e = g.go(3); break;
        case 1: { int a = g.sites++, b = g.sites++; e = g.go(1) + "?fid(" + std::to_string(a) + "," + g.go(1) + "):fid(" + std::to_string(b) + "," + g.go(1) + ")"; break; }
        case 2: { int a = g.sites++, b = g.sites++; e = "(" + g.go(1) + "?(" + g.go(1) + "?fid(" + std::to_string(a) + "," + g.go(1) + "):" + g.go(1) + "):fid(" + std::to_string(b) + "," + g.go(2) + "))+" + g.go(1); break; }
        default: { std::string x = g.go(2), y = g.go(2); e = "fsum((" + x + "?" + y + ":" + g.go(2) + "),(" + g.go(1) + "?" + g.go(2) + ":" + g.go(2) + "))"; break; } } }
    int th = 1 + (int)choice(4); bool boom = choice(2);
    for (int i : g.all()) g_yield[i] = choice(5) == 0 ? 2 : 0;
    CallLog *la; fresh_log();
    Out a = outcome([&] { return eval(e); });
    { NoSim n; la = new CallLog(*clog_); }
    int expect[MAXSITE]; { Value v = Model::run(e, expect); }
    for (int s : g.all()) if (!expect[s] && la->calls[s]) violation("branch-not-taken", "eval of \"%s\" calls function call site %d, which lies in a branch that is not taken", clip(e).c_str(), s);
    int armed = 0;
    if (boom) for (int s : g.all()) if (!la->calls[s]) { g_throwing[s] = true; ++armed; }     // whatever eval does not call must not be called
    describe("\"%s\" on %d thread(s), %d calls, %d calls in branches not taken throw", clip(e).c_str(), th, (int)g.all().size(), armed);
    fresh_log();
    Out b = outcome([&] { return peval(e, th); });
    for (int s : g.all()) {
        if (!la->calls[s] && clog_->calls[s]) violation("branch-not-taken", "peval of \"%s\" on %d thread(s) calls function call site %d, which lies in a branch that is not taken", clip(e).c_str(), th, s);
        if (la->calls[s] != clog_->calls[s]) violation("call-count", "sequential evaluation makes the call at site %d %d time(s), peval %d time(s)", s, la->calls[s], clog_->calls[s]);
    }
    if (b.threw || b.val != a.val) violation("peval-differs", "peval of \"%s\" on %d thread(s) gives %s, eval gives %s", clip(e).c_str(), th, str(b).c_str(), str(a).c_str());
    if (armed) probe(28); probe(29);
}
}  // namespace

static const uint64_t CAP = 4000000, BIGCAP = 60000000;
SCENARIO("C05", eval_equal_05, 2500, BIGCAP, false) { eval_equal(); }
SCENARIO("C05", eval_large_05, 25, 60000000, false) { eval_large(false); }
SCENARIO("C05", eval_huge_05, 1, 1500000000, false) { eval_large(true); }
SCENARIO("C06", eval_throw_06, 10, CAP, false) { eval_throw(); }
SCENARIO("C06", eval_throw_large_06, 1, 400000000, false) { if (choice(4)) eval_throw(); else eval_throw_large(); }
SCENARIO("C06", eval_hook_throw_06, 1, CAP, false) { eval_hook_throw(); }
SCENARIO("C16", eval_hook_throw_16, 1, CAP, false) { eval_hook_throw(); }
SCENARIO("C07", eval_threadfail_07, 6, CAP, false) { eval_threadfail(); }
SCENARIO("C12", eval_oom_12, 4, CAP, false) { eval_oom(false); }
SCENARIO("C12", peval_oom_12, 8, CAP, false) { eval_oom(true); }
SCENARIO("C15", eval_many_15, 10, CAP, true) { eval_many(); }
SCENARIO("C15", eval_hooks_15, 3, CAP, true) { eval_hooks(); }
SCENARIO("C16", eval_equal_16, 2, BIGCAP, false) { eval_equal(); }
SCENARIO("C16", eval_throw_16, 4, CAP, false) { eval_throw(); }
SCENARIO("C17", eval_cond_17, 10, CAP, false) { eval_cond(); }
SCENARIO("C17", eval_throw_17, 4, CAP, false) { eval_throw(); }
SCENARIO("C17", eval_cond_many_17, 1, 200000000, false) { if (choice(4)) eval_cond(); else eval_cond(true); }
SCENARIO("C18", eval_symbols_18, 10, 80000000, true) { eval_symbols(); }
SCENARIO("C04", eval_equal_04, 3, CAP, true) { eval_equal(); }
SCENARIO("C04", eval_throw_04, 2, CAP, true) { eval_throw(); }
