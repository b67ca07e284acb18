// Number scenarios: C08, C09, C10, C11.
//
// Oracle ("fresh twin"): every executed operation is logged with the values of its operands before it,
// everything it reported, and the values after it. When the run is over, each logged operation is
// repeated, alone and without faults, on newly constructed numbers of the same values that share nothing
// with anything; what it reported and left behind must be the same. Between operations, numbers that an
// operation was not given must keep their tracked value.
#include "h.h"
#include "BigInteger.h"
#include "BigIntegerImpl.h"
#include "Status.h"
#include "Fraction.h"
#include "algorithm.h"
#include "pgbn.h"
#include "expr.h"
#include <mutex>
#include <sched.h>
using namespace pgbn;

namespace {
// ---------------------------------------------------------------- values (harness memory only)
struct V {
    bool neg = false; std::string mag;      // |value|, little endian, no trailing zero byte
    bool gone = false;                      // moved from: no value, may only be assigned
    bool zero() const { return mag.empty(); }
    bool operator==(const V &o) const { return gone == o.gone && (gone || (neg == o.neg && mag == o.mag)); }
    std::string hex() const {
        if (gone) return "<moved-from>";
        if (mag.empty()) return "0";
        std::string s; char b[4]; for (size_t i = mag.size(); i-- > 0;) { snprintf(b, sizeof b, "%02x", (unsigned char)mag[i]); s += b; }
        size_t p = s.find_first_not_of('0'); s = s.substr(p == std::string::npos ? s.size() - 1 : p);
        if (s.size() > 90) s = s.substr(0, 60) + "..." + s.substr(s.size() - 24) + "(" + std::to_string(s.size()) + " digits)";
        return (neg ? "-0x" : "0x") + s;
    }
};
constexpr size_t MAXBYTES = 4096;

// a number of the C interface, wrapped so that the workloads can use it
struct CNum {
    pgbn_BigInteger_t *h;
    CNum() : h(pgbn_BigInteger_Create()) {}
    explicit CNum(std::int64_t i) : h(pgbn_BigInteger_CreateWithI64(i)) {}
    CNum(const StringArg &s, int radix, bool *ok) : h(pgbn_BigInteger_CreateWithStr(s.data(), radix)) { *ok = h != nullptr; }
    CNum(const CNum &o) : h(pgbn_BigInteger_CreateWithCopying(o.h)) {}
    CNum(CNum &&o) : h(o.h) { o.h = nullptr; }
    CNum &operator=(const CNum &o) { assign(o); return *this; }
    CNum &operator=(CNum &&o) { std::swap(h, o.h); return *this; }
    ~CNum() { if (h) pgbn_BigInteger_Destroy(h); }
    void need() { if (!h) h = pgbn_BigInteger_Create(); }
    void assign(const CNum &o) { need(); pgbn_BigInteger_Copy(h, o.h); }
    void assign(CNum &&o) { std::swap(h, o.h); }
    void assign(std::int64_t i) { need(); pgbn_BigInteger_AssignWithI64(h, i); }
    void assign(const void *p, size_t n, bool little) { if (h) pgbn_BigInteger_AssignWithBin(h, p, n, little); else h = pgbn_BigInteger_CreateWithBin(n, p, little); }
    void fromString(const StringArg &s, int radix, bool *ok) { need(); *ok = pgbn_BigInteger_AssignWithStr(h, s.data(), radix); }
    bool isZero() const { return pgbn_BigInteger_IsZero(h); }
    bool isOne() const { return pgbn_BigInteger_IsOne(h); }
    bool isNegOne() const { return pgbn_BigInteger_IsNegOne(h); }
    bool isEven() const { return pgbn_BigInteger_IsEven(h); }
    bool isOdd() const { return pgbn_BigInteger_IsOdd(h); }
    bool flagsContains(Enum f) const { return f == BNFlag::NEGATIVE ? pgbn_BigInteger_IsNegative(h) : pgbn_BigInteger_IsPositive(h); }
    SizeType copyMagDataTo(void *d, SizeType n) const { return pgbn_BigInteger_GetMagData(h, d, n); }
    std::string toString(int radix) const { pgbn_String_t *t = pgbn_BigInteger_ToString(h, radix); std::string s(pgbn_String_CStr(t), pgbn_String_Length(t)); pgbn_String_Destroy(t); return s; }
    std::uint32_t getU32(SizeType i) const { return pgbn_BigInteger_Get2sComplementBlock(h, i); }
    std::uint64_t toU64() const { bool ok = false; std::uint64_t u = (std::uint64_t)pgbn_BigInteger_GetInt64WithChecking(h, &ok); u = u * 3 + ok; u += pgbn_BigInteger_GetUInt64WithChecking(h, &ok) * 5 + ok; return u + (std::uint64_t)pgbn_BigInteger_GetInt64(h) + pgbn_BigInteger_GetUInt64(h); }
    int cmp(const CNum &o) const { return pgbn_BigInteger_Cmp(h, o.h); }
    int cmpi(std::int64_t i) const { return pgbn_BigInteger_CmpWithI64(h, i); }
    void inc() { pgbn_BigInteger_Inc(h); }
    void dec() { pgbn_BigInteger_Dec(h); }
    void notSelf() { pgbn_BigInteger_NotSelf(h); }
    void notBits() { pgbn_BigInteger_NotSelfBits(h); }
    void negate() { pgbn_BigInteger_Negate(h); }
    void abs() { pgbn_BigInteger_AbsSelf(h); }
    void addAssign(const CNum &o) { pgbn_BigInteger_AddAssign(h, o.h); }
    void subAssign(const CNum &o) { pgbn_BigInteger_SubAssign(h, o.h); }
    void mulAssign(const CNum &o) { pgbn_BigInteger_MulAssign(h, o.h); }
    void divAssign(const CNum &o) { pgbn_BigInteger_DivAssign(h, o.h); }
    void modAssign(const CNum &o) { pgbn_BigInteger_ModAssign(h, o.h); }
    void andAssign(const CNum &o) { pgbn_BigInteger_AndAssign(h, o.h); }
    void orAssign(const CNum &o) { pgbn_BigInteger_OrAssign(h, o.h); }
    void xorAssign(const CNum &o) { pgbn_BigInteger_XorAssign(h, o.h); }
    void addAssign(std::int64_t i) { pgbn_BigInteger_AddAssignWithI64(h, i); }
    void subAssign(std::int64_t i) { pgbn_BigInteger_SubAssignWithI64(h, i); }
    void mulAssign(std::int64_t i) { pgbn_BigInteger_MulAssignWithI64(h, i); }
    void divAssign(std::int64_t i) { pgbn_BigInteger_DivAssignWithI64(h, i); }
    void modAssign(std::int64_t i) { pgbn_BigInteger_ModAssignWithI64(h, i); }
    void andAssign(std::int64_t i) { pgbn_BigInteger_AndAssignWithI64(h, i); }
    void orAssign(std::int64_t i) { pgbn_BigInteger_OrAssignWithI64(h, i); }
    void xorAssign(std::int64_t i) { pgbn_BigInteger_XorAssignWithI64(h, i); }
    void shiftLeftAssign(std::uint64_t n) { pgbn_BigInteger_SHLAssignWithI64(h, (std::int64_t)n); }
    void shiftRightAssign(std::uint64_t n) { pgbn_BigInteger_SHRAssignWithI64(h, (std::int64_t)n); }
};
template <class N> constexpr int kind() { return std::is_same_v<N, BigInteger> ? 0 : std::is_same_v<N, BigIntegerImpl> ? 1 : 2; }
const char *kindname[] = {"BigInteger", "BigIntegerImpl", "C interface"};

bool isZ(const CNum &n) { return n.isZero(); }
bool isN(const CNum &n) { return n.flagsContains(BNFlag::NEGATIVE); }
void setbin(CNum &n, const void *p, SizeType len) { n.assign(p, len, true); }
void bin(CNum &a, const CNum &b, int k) { switch (k) { case 0: a.addAssign(b); break; case 1: a.subAssign(b); break; case 2: a.mulAssign(b); break; case 3: a.divAssign(b); break; case 4: a.modAssign(b); break; case 5: a.andAssign(b); break; case 6: a.orAssign(b); break; default: a.xorAssign(b); } }
void bin(CNum &a, std::int64_t b, int k) { switch (k) { case 0: a.addAssign(b); break; case 1: a.subAssign(b); break; case 2: a.mulAssign(b); break; case 3: a.divAssign(b); break; case 4: a.modAssign(b); break; case 5: a.andAssign(b); break; case 6: a.orAssign(b); break; default: a.xorAssign(b); } }
void shl(CNum &a, std::uint64_t n) { a.shiftLeftAssign(n); }
void shr(CNum &a, std::uint64_t n) { a.shiftRightAssign(n); }
void inc(CNum &a) { a.inc(); }
void dec(CNum &a) { a.dec(); }
void sett(CNum &a, const StringArg &s, int r, bool *ok) { a.fromString(s, r, ok); }
std::uint32_t word(const CNum &a, SizeType i) { return a.getU32(i); }
int flags(const CNum &a) { return a.isZero() | a.isOne() << 1 | a.isNegOne() << 2 | a.flagsContains(BNFlag::POSITIVE) << 3 | a.flagsContains(BNFlag::NEGATIVE) << 4 | a.isEven() << 5 | a.isOdd() << 6; }
bool isZ(const BigInteger &n) { return n.isZero(); }
bool isZ(const BigIntegerImpl &n) { return n.isZero(); }
bool isN(const BigInteger &n) { return n.isNegative(); }
bool isN(const BigIntegerImpl &n) { return n.flagsContains(BNFlag::NEGATIVE); }

template <class N> void snap(const N &n, V &v) {       // v must be harness memory; n is read through the library
    char buf[MAXBYTES];
    bool z = isZ(n), g = isN(n);
    SizeType len = z ? 0 : n.copyMagDataTo(buf, sizeof buf);
    NoSim ns;
    while (len > 0 && buf[len - 1] == 0) --len;
    v.gone = false; v.neg = g && !z; v.mag.assign(buf, len);
}
// a newly built number of value v: positive import, then the sign
void setbin(BigInteger &n, const void *p, SizeType len) { n.fromBinary(p, len, true); }
void setbin(BigIntegerImpl &n, const void *p, SizeType len) { n.assign(p, len, true); }
template <class N> void build(N &n, const V &v) {
    char buf[MAXBYTES + 1]; size_t len = v.mag.size();
    memcpy(buf, v.mag.data(), len); buf[len] = 0;
    setbin(n, buf, len + 1);
    if (v.neg) n.negate();
}
// ---------------------------------------------------------------- operations
enum { ADD, SUB, MUL, DIV, MOD, AND, OR, XOR, ADDI, SUBI, MULI, DIVI, MODI, ANDI, ORI, XORI,
       INC, DEC, PINC, PDEC, NEG, ABS, NOT, NOTB, SHL, SHR, SETI, SETC, SETT, SETB, REPL, NEW, NEWI, MOVE, SWAP, DIVREM, MODQUO, SMUL, SDIV, CTORS,
       R_STR, R_CMP, R_CMPI, R_WORD, R_I64, R_U64, R_MAG, R_IS, R_AS, R_UN, R_BIN, R_COPY, NOPS };
const char *opname[NOPS] = { "a+=b", "a-=b", "a*=b", "a/=b", "a%=b", "a&=b", "a|=b", "a^=b", "a+=i", "a-=i", "a*=i", "a/=i", "a%=i", "a&=i", "a|=i", "a^=i",
       "++a", "--a", "a++", "a--", "negate", "abs", "notSelf", "notBits", "a<<=i", "a>>=i", "a=i", "a=b", "a=text", "a=binary", "a=copy of b (replaced)", "a=b OP c", "a=b OP i", "a=move(b)", "swap(a,b)",
       "divideAssignAndReminder(a,b,c)", "modAssignAndQuotient(a,b,c)", "mul(a,b,c)", "div(a,b,c,d)", "constructors",
       "toString", "cmp(a,b)", "cmp(a,i)", "get2sComplement", "getInt64", "getUInt64", "copyMagDataTo", "is-tests", "as<T>", "unary results", "a OP b", "copy" };
struct Op { int code; std::int64_t imm; int a, b, c, d; std::string text; int k = 0; };     // text: harness memory
bool reads_only(int c) { return c >= R_STR; }
bool needs_b(int c) { return c <= XOR || c == SETC || c == REPL || c == NEW || c == NEWI || c == MOVE || c == SWAP || c == DIVREM || c == MODQUO || c == SMUL || c == SDIV || c == R_CMP || c == R_BIN || c == CTORS; }
bool assigns(int c) { return c == SETI || c == SETC || c == SETT || c == SETB || c == REPL; }   // a may be moved-from
bool bmod(int c) { return c == MOVE || c == SWAP || c == SDIV; }
bool cmod(int c) { return c == DIVREM || c == MODQUO; }
constexpr int NB_OPS = 8;
void bin(BigInteger &a, const BigInteger &b, int k) { switch (k) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; case 3: a /= b; break; case 4: a %= b; break; case 5: a &= b; break; case 6: a |= b; break; default: a ^= b; } }
void bin(BigInteger &a, std::int64_t b, int k) { switch (k) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; case 3: a /= b; break; case 4: a %= b; break; case 5: a &= b; break; case 6: a |= b; break; default: a ^= b; } }
template <class B> void bini(BigIntegerImpl &a, const B &b, int k) {
    switch (k) { case 0: a.addAssign(b); break; case 1: a.subAssign(b); break; case 2: a.mulAssign(b); break; case 3: a.divAssign(b); break;
    case 4: { BigIntegerImpl q; a.modAssignAndQuotient(b, q); break; } case 5: a.andAssign(b); break; case 6: a.orAssign(b); break; default: a.xorAssign(b); }
}
void bin(BigIntegerImpl &a, const BigIntegerImpl &b, int k) { bini(a, b, k); }
void bin(BigIntegerImpl &a, std::int64_t b, int k) { bini(a, b, k); }
void shl(BigInteger &a, std::uint64_t n) { a <<= n; }
void shl(BigIntegerImpl &a, std::uint64_t n) { a.shiftLeftAssign(n); }
void shr(BigInteger &a, std::uint64_t n) { a >>= n; }
void shr(BigIntegerImpl &a, std::uint64_t n) { a.shiftRightAssign(n); }
void inc(BigInteger &a) { ++a; }
void inc(BigIntegerImpl &a) { a.inc(); }
void dec(BigInteger &a) { --a; }
void dec(BigIntegerImpl &a) { a.dec(); }
void sett(BigInteger &a, const StringArg &s, int r, bool *ok) { a.assign(s, r, ok); }
void sett(BigIntegerImpl &a, const StringArg &s, int r, bool *ok) { a.fromString(s, r, ok); }
std::uint32_t word(const BigInteger &a, SizeType i) { return a.get2sComplement(i); }
std::uint32_t word(const BigIntegerImpl &a, SizeType i) { return a.getU32(i); }
int flags(const BigInteger &a) { return a.isZero() | a.isOne() << 1 | a.isNegOne() << 2 | a.isPositive() << 3 | a.isNegative() << 4 | a.isEven() << 5 | a.isOdd() << 6; }
int flags(const BigIntegerImpl &a) { return a.isZero() | a.isOne() << 1 | a.isNegOne() << 2 | a.flagsContains(BNFlag::POSITIVE) << 3 | a.flagsContains(BNFlag::NEGATIVE) << 4 | a.isEven() << 5 | a.isOdd() << 6; }

struct Obs {                               // what an operation reported; harness memory
    std::string s;
    void num(long long x) { NoSim n; s += std::to_string(x); s += ';'; }
    void txt(const std::string &t) { NoSim n; s.append(t.data(), t.size()); s += ';'; }
    template <class N> void val(const N &x) { V v; { NoSim n; v.mag.reserve(64); } snap(x, v); NoSim n; s += v.hex(); s += '/'; s += v.mag; s += ';'; std::string().swap(v.mag); }
};
std::string *mk(const char *p, size_t n) { NoSim ns; return new std::string(p, n); }

// perform op on numbers a, b, c (b, c may be a)
template <class N> void perform(const Op &op, N &a, N &b, N &c, N &d, Obs &o) {
    constexpr bool impl = !std::is_same_v<N, BigInteger>, raw = std::is_same_v<N, BigIntegerImpl>;
    const std::int64_t i = op.imm;
    switch (op.code) {
    case ADD: case SUB: case MUL: case DIV: case MOD: case AND: case OR: case XOR: bin(a, b, op.code - ADD); break;
    case ADDI: case SUBI: case MULI: case DIVI: case MODI: case ANDI: case ORI: case XORI: bin(a, i, op.code - ADDI); break;
    case INC: inc(a); break;
    case DEC: dec(a); break;
    case PINC: if constexpr (!impl) { N t = a++; o.val(t); } else inc(a); break;
    case PDEC: if constexpr (!impl) { N t = a--; o.val(t); } else dec(a); break;
    case NEG: a.negate(); break;
    case ABS: a.abs(); break;
    case NOT: a.notSelf(); break;
    case NOTB: a.notBits(); break;
    case SHL: shl(a, (std::uint64_t)i); break;
    case SHR: shr(a, (std::uint64_t)i); break;
    case SETI: if constexpr (!impl) { a = i; } else a.assign(i); break;
    case SETC: if constexpr (impl) { if (i & 1) a.assign(b); else a = b; } else a = b; break;
    case SETT: { bool ok = true; sett(a, StringArg(op.text.data(), op.text.size()), (int)i, &ok); o.num(ok); break; }
    case SETB: if constexpr (impl) a.assign(op.text.data(), op.text.size(), i & 1); else a.fromBinary(op.text.data(), op.text.size(), i & 1); break;
    case REPL: { N t(b); if (i & 1) a = std::move(t); else { using std::swap; swap(a, t); } break; }
    case NEW: if constexpr (!impl) {
            switch (i & 7) { case 0: a = b + c; break; case 1: a = b - c; break; case 2: a = b * c; break; case 3: a = b / c; break; case 4: a = b % c; break; case 5: a = b & c; break; case 6: a = b | c; break; default: a = b ^ c; }
        } else { N t(b); bin(t, c, (int)(i & 7)); a.assign(std::move(t)); } break;
    case NEWI: if constexpr (!impl) {
            switch (op.k) { case 0: a = b + i; break; case 1: a = i - b; break; case 2: a = b * i; break; case 3: a = b / i; break; case 4: a = b % i; break; case 5: a = i & b; break; case 6: a = b << (i & 63); break; case 7: a = b >> (i & 63); break;
            case 8: a = i + b; break; case 9: a = b - i; break; case 10: a = i * b; break; case 11: a = i / b; break; case 12: a = i % b; break; case 13: a = b & i; break; case 14: a = b | i; break; case 15: a = i | b; break; case 16: a = b ^ i; break; default: a = i ^ b; }
        } else { N t(b); bin(t, i, op.k & 7); a = t; } break;
    case MOVE: if constexpr (impl) a.assign(std::move(b)); else a = std::move(b); break;
    case SWAP: { using std::swap; swap(a, b); break; }
    case DIVREM: if constexpr (raw) { if (i & 1) a.divideAssignAndReminder(b, c); else a.divideAssignAndReminder(i | 1, c); } break;
    case MODQUO: if constexpr (raw) { if (i & 1) a.modAssignAndQuotient(b, c); else a.modAssignAndQuotient(i | 1, c); } break;
    case SMUL: if constexpr (raw) BigIntegerImpl::mul(a, b, c); break;
    case SDIV: if constexpr (raw) { if (op.k & 1) BigIntegerImpl::div(a, b, c, i ? i : 3); else BigIntegerImpl::div(a, b, c, d); } break;
    case CTORS: {
        bool ok = true; N x(StringArg(op.text.data(), op.text.size()), (int)(2 + (std::uint64_t)i % 35), &ok); o.num(ok); if (ok) o.val(x);
        N y(i); o.val(y); N z; o.val(z); N w(b); o.val(w); N m(std::move(w)); o.val(m);
        break; }
    case R_STR: { std::string s = a.toString((int)i); o.txt(s); break; }
    case R_CMP: {
        int r = a.cmp(b); o.num(r);
        if constexpr (!impl) { o.num((a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5); }
        break; }
    case R_CMPI: if constexpr (!impl) { o.num(a.cmp(i)); o.num((a == i) | (a != i) << 1 | (a < i) << 2 | (a <= i) << 3 | (a > i) << 4 | (a >= i) << 5 | (i == a) << 6 | (i != a) << 7 | (i < a) << 8 | (i <= a) << 9 | (i > a) << 10 | (i >= a) << 11); } else if constexpr (raw) o.num(a.cmp(BigIntegerImpl(i))); else o.num(a.cmpi(i)); break;
    case R_WORD: for (int k = 0; k < 5; ++k) o.num(word(a, (SizeType)((i + k * 3) & 15))); o.num(word(a, 0)); break;
    case R_I64: if constexpr (!impl) { bool ok = false; o.num(a.getInt64(&ok)); o.num(ok); std::int64_t x = 0; o.num(a.tryGetInt64(x)); o.num(x); } else o.num((long long)a.toU64()); break;
    case R_U64: if constexpr (!impl) { bool ok = false; o.num((long long)a.getUInt64(&ok)); o.num(ok); std::uint64_t x = 0; o.num(a.tryGetUInt64(x)); o.num((long long)x); } else o.num((long long)a.toU64()); break;
    case R_MAG: { char buf[64]; SizeType n = a.copyMagDataTo(buf, (SizeType)(i & 63)); o.num((long long)n); { NoSim ns; o.s.append(buf, n <= 63 ? n : 0); } break; }
    case R_IS: o.num(flags(a)); if constexpr (raw) { o.num((long long)a.getMagU32Count()); auto [r, q] = a.getMagBitCount(); o.num((long long)r); o.num((long long)q); } break;
    case R_AS: if constexpr (!impl) { o.num(a.template as<bool>()); o.num(a.template as<int>()); o.num((long long)a.template as<unsigned long long>()); o.num(a.template as<char>()); std::string s = a.template as<std::string>(); o.txt(s); } else o.num((long long)a.toU64()); break;
    case R_UN: if constexpr (!impl) { { N t = ~a; o.val(t); } { N t = -a; o.val(t); } { N t = +a; o.val(t); } { N t = a.negated(); o.val(t); } { N t = a.absoluted(); o.val(t); } } else { N t(a); t.notSelf(); o.val(t); } break;
    case R_BIN: { N t(a); bin(t, b, (int)(i & 7)); o.val(t); if constexpr (!impl) { N u = a - b; o.val(u); N w = b & a; o.val(w); } break; }
    case R_COPY: { N t(a); o.val(t); N u; u = a; o.val(u); shl(u, (std::uint64_t)(i & 63)); o.val(u); break; }
    }
}
// ---------------------------------------------------------------- log and twin
struct Entry { Op op; V a, b, c, d, a2, b2, c2; Obs o; bool failed; bool ab, ac, bc; const char *where; };
struct Log { std::vector<Entry *> e; };
Log *newlog() { NoSim n; return new Log(); }

std::string opdesc(const Entry &e) {
    std::string s = opname[e.op.code]; s += " with a=" + e.a.hex();
    if (needs_b(e.op.code)) s += e.ab ? ", b is a" : ", b=" + e.b.hex();
    if (e.op.code >= NEW) { if (e.ac) s += ", c is a"; else if (e.bc) s += ", c is b"; else s += ", c=" + e.c.hex(); }
    s += ", i=" + std::to_string(e.op.imm); if (!e.op.text.empty()) { s += ", text="; for (unsigned char ch : e.op.text.substr(0, 24)) { if (ch >= 32 && ch < 127) s += (char)ch; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); s += b; } } }
    return s;
}
std::string printable(const std::string &s) { std::string r; for (unsigned char c : s.substr(0, 200)) r += (c >= 32 && c < 127) ? (char)c : '.'; return r; }

template <class N> void twin(const Entry &e) {
    Obs o; V a2, b2, c2; bool threw = false;
    { NoSim n; o.s.reserve(256); }
    {
        N a, b, c, d;
        if (!e.a.gone) build(a, e.a);
        if (needs_b(e.op.code) && !e.b.gone) build(b, e.b);
        if (e.op.code >= NEW && !e.c.gone) build(c, e.c);
        if (e.op.code == SDIV) build(d, e.d);
        // numbers that were one object are two objects of the same value here, unless the operation modifies both roles
        perform(e.op, a, (e.ab && bmod(e.op.code)) ? a : b, c, d, o);
        snap(a, a2);
        if (bmod(e.op.code)) { if (e.op.code == MOVE && !e.ab) { b2.gone = true; } else if (e.ab) { NoSim n; b2 = a2; } else if (e.op.code == SWAP && e.a.gone) { b2.gone = true; } else snap(b, b2); } else { NoSim n; b2 = e.b; }
        if (cmod(e.op.code)) snap(c, c2); else { NoSim n; c2 = e.c; }
        if (e.op.code == SWAP && e.b.gone) a2.gone = true;
    }
    (void)threw;
    NoSim n;
    if (e.failed) {
        // a failed operation leaves the old or the complete new value in what it modifies, and everything else alone
        if (is("C11")) {
            if (!(e.a2 == e.a) && !(e.a2 == a2)) violation("half-done", "%s: %s failed with bad_alloc and left a=%s (complete result would be %s)", e.where, opdesc(e).c_str(), e.a2.hex().c_str(), a2.hex().c_str());
            if (needs_b(e.op.code) && !(e.b2 == e.b) && !(e.b2 == b2) && !e.ab) violation("half-done", "%s: %s failed with bad_alloc and left b=%s (complete result would be %s)", e.where, opdesc(e).c_str(), e.b2.hex().c_str(), b2.hex().c_str());
            if (e.op.code >= NEW && !(e.c2 == e.c) && !(e.c2 == c2) && !e.ac && !e.bc) violation("half-done", "%s: %s failed with bad_alloc and left c=%s (complete result would be %s)", e.where, opdesc(e).c_str(), e.c2.hex().c_str(), c2.hex().c_str());
        }
        return;
    }
    if (e.o.s != o.s) violation("wrong-result", "%s: %s reported \"%s\", but \"%s\" on newly made numbers of the same values", e.where, opdesc(e).c_str(), printable(e.o.s).c_str(), printable(o.s).c_str());
    if (!(e.a2 == a2)) violation("wrong-result", "%s: %s left a=%s, but %s on newly made numbers of the same values", e.where, opdesc(e).c_str(), e.a2.hex().c_str(), a2.hex().c_str());
    if (needs_b(e.op.code) && !e.ab && !(e.b2 == b2)) violation("wrong-result", "%s: %s left b=%s, but %s on newly made numbers of the same values", e.where, opdesc(e).c_str(), e.b2.hex().c_str(), b2.hex().c_str());
    if (e.op.code >= NEW && !e.ac && !e.bc && !(e.c2 == c2)) violation("wrong-result", "%s: %s left c=%s, but %s on newly made numbers of the same values", e.where, opdesc(e).c_str(), e.c2.hex().c_str(), c2.hex().c_str());
}
template <class N> void verify(Log *l) { for (size_t k = 0;; ++k) { Entry *e; { NoSim n; if (k >= l->e.size()) break; e = l->e[k]; } twin<N>(*e); } }

// ---------------------------------------------------------------- workload generation
std::int64_t gen_i64() {
    static const std::int64_t s[] = { 0, 1, -1, 2, -2, 3, 10, 255, -256, 0x7fffffff, 0x80000000LL, 0xffffffffLL, -0xffffffffLL, 0x100000000LL, -0x100000000LL, 0x7fffffffffffffffLL, -0x7fffffffffffffffLL, 0x123456789abcdefLL };
    uint32_t k = choice(24);
    if (k < 18) return s[k];
    std::int64_t x = ((std::int64_t)choice(0x40000000) << 30) ^ choice(0x40000000);
    if (k < 21) x >>= 28;
    return choice(2) ? x : -x;
}
void gen_value(V &v, int maxlimbs) {
    // limbs drawn from few patterns so that carries, borrows and zero runs happen
    uint32_t kind = choice(12), n = kind == 0 ? 0 : 1 + choice(maxlimbs), pat = choice(5), r1 = choice(0x10000), r2 = choice(0x10000), neg = choice(2);
    NoSim ns;
    v.gone = false; v.mag.clear(); v.neg = neg && n;
    uint64_t x = (uint64_t)r1 << 32 | r2 << 8 | 1;
    for (uint32_t k = 0; k < n; ++k) {
        uint32_t w; x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        switch (pat) { case 0: w = (uint32_t)(x >> 32); break; case 1: w = 0xffffffff; break; case 2: w = k + 1 == n ? 1u + (r1 & 3) : 0; break; case 3: w = (x >> 40) & 1 ? 0xffffffff : 0; break; default: w = (x >> 41) & 1 ? (uint32_t)(x >> 32) : 0x80000000u; }
        if (k + 1 == n && w == 0) w = 1;
        for (int j = 0; j < 4; ++j) v.mag += (char)(w >> (8 * j));
    }
    while (!v.mag.empty() && v.mag.back() == 0) v.mag.pop_back();
    if (v.mag.empty()) v.neg = false;
}
void gen_text(Op &op) {
    uint32_t kind = choice(8), n = 1 + choice(kind == 7 ? 60 : 22), d = choice(10), neg = choice(3), inc = choice(10);
    NoSim ns; std::string &s = op.text; s.clear();
    if (kind == 0) { static const char *odd[] = {"12-3", "", "+", "-", "1+2", "+-5", "0", "-0", "0000", "+00012", "zz", "1234567zz9", "--1", "7Fx"}; s = odd[(d + inc * 10) % 14]; return; }   // malformed or unusual
    if (neg == 0) s += '-'; else if (neg == 1) s += '+';
    s += (char)('1' + d % 9);
    for (uint32_t k = 1; k < n; ++k) { d = (d + inc + k) % 10; s += (char)('0' + (kind == 1 ? 0 : d)); }
}
void gen_bin(Op &op) {
    uint32_t n = 1 + choice(20), x = choice(0x10000), kind = choice(6), r3 = choice(2);
    NoSim ns; std::string &s = op.text; s.clear();
    for (uint32_t k = 0; k < n; ++k) { x = x * 1103515245 + 12345; s += (char)(kind == 0 ? 0 : kind == 1 || kind == 5 ? (x >> 16) : kind == 3 ? 0xff : kind == 4 ? ((k == 0) != (r3 == 0) ? 0x80 : 1) : (x >> 16) | 1); }
}
// swarm: a run may confine itself to a few kinds of operations and a few amounts, so that rare combinations meet
struct Swarm { int n = 0, m = 0; int code[6]; std::int64_t imm[2]; } sw;
void swarm(int ro = 4) {
    sw.n = choice(2) ? 0 : 1 + (int)choice(6); sw.m = choice(3) ? 0 : 1 + (int)choice(2);
    for (int k = 0; k < sw.n; ++k) sw.code[k] = choice(ro) == 0 ? R_STR + (int)choice(NOPS - R_STR) : (int)choice(R_STR);
    for (int k = 0; k < sw.m; ++k) sw.imm[k] = choice(2) ? gen_i64() : 32 * (std::int64_t)choice(4);
    if (sw.n) describe("only %d kinds of operations;", sw.n);
}
// weights: what kinds of operations
void gen_op(Op &op, int nnum, bool readonly, int impl) {
    for (int tries = 0;; ++tries) { if (sw.n && tries < 20) { op.code = sw.code[choice(sw.n)]; if (readonly && op.code < R_STR) continue; }
        else op.code = readonly ? R_STR + choice(NOPS - R_STR) : choice(5) == 0 ? R_STR + choice(NOPS - R_STR) : choice(R_STR);
        if (impl != 1 && (op.code == DIVREM || op.code == MODQUO || op.code == SMUL || op.code == SDIV)) continue;
        break; }
    op.a = choice(nnum); op.b = choice(4) == 0 ? op.a : choice(nnum); op.c = choice(nnum); op.d = choice(nnum); op.imm = sw.m && choice(4) ? sw.imm[choice(sw.m)] : gen_i64(); op.k = choice(18);
    { NoSim n; op.text.clear(); }
    switch (op.code) {
    case SHL: if (sw.m && op.imm >= 0 && op.imm <= 96) break; op.imm = choice(3) ? choice(70) : 32 * choice(4); break;
    case SHR: if (sw.m && op.imm >= 0 && op.imm <= 96) break; op.imm = choice(3) ? choice(70) : 32 * choice(9); break;
    case SETT: gen_text(op); { static const int odd[] = {2, 8, 36, 1, 37, 0, -1, 3}; op.imm = choice(6) ? 10 + choice(27) : odd[choice(8)]; } break;
    case CTORS: gen_text(op); if (op.imm < 0) op.imm = -op.imm; op.imm = op.imm / 35 * 35 + 8; break;
    case SETB: gen_bin(op); break;
    case R_STR: { static const int rx[] = {10, 16, 2, 36, 8, 10, 7, 3}; op.imm = rx[choice(8)]; break; }
    case R_WORD: op.imm = choice(16); break;
    case R_MAG: op.imm = choice(64); break;
    case DIVI: case MODI: if (op.imm == 0) op.imm = 7; break;
    case NEWI: if (op.imm == 0 && (op.k == 3 || op.k == 4 || (impl && ((op.k & 7) == 3 || (op.k & 7) == 4)))) op.imm = 8; break;
    }
}
// ---------------------------------------------------------------- a set of numbers with a history
template <class N> struct Num { N n; V v; };
template <class N> struct Set {
    std::vector<Num<N> *> x;
    static Num<N> *make() { void *p; { NoSim n; p = malloc(sizeof(Num<N>)); } return new (p) Num<N>(); }      // the number's own memory: harness; its digits: simulated heap
    static void drop(Num<N> *q) { q->n.~N(); NoSim n; q->v.~V(); free(q); }
    void add(const V &v) { Num<N> *q = make(); build(q->n, v); NoSim n; q->v = v; x.push_back(q); }
    void add_copy(const Num<N> &o) { void *p; { NoSim n; p = malloc(sizeof(Num<N>)); } Num<N> *q = (Num<N> *)p; new (&q->n) N(o.n); NoSim n; new (&q->v) V(o.v); x.push_back(q); }
    void clear() { while (!x.empty()) { Num<N> *q; { NoSim n; q = x.back(); x.pop_back(); } drop(q); } }
    // every number still has its tracked value
    void check(const char *where, int except_a = -1, int except_b = -1, int except_c = -1) {
        V v;
        for (int k = 0; k < (int)x.size(); ++k) {
            if (k == except_a || k == except_b || k == except_c || x[k]->v.gone) continue;
            snap(x[k]->n, v);
            NoSim n;
            if (!(v == x[k]->v)) violation("changed", "%s: a number that was %s now is %s although nothing was done to it", where, x[k]->v.hex().c_str(), v.hex().c_str());
        }
        NoSim n; std::string().swap(v.mag);
    }
};
// the operation as it can be executed in the present state (no division by zero, no use of moved-from numbers, no size explosion)
template <class N> bool adapt(Op &op, Set<N> &s, int limit) {
    constexpr int impl = kind<N>();
    NoSim n;
    auto V_ = [&](int k) -> V & { return s.x[k]->v; };
    if (op.code == MOVE && op.a == op.b) return false;
    if (V_(op.a).gone && !assigns(op.code) && op.code != NEW && op.code != NEWI && op.code != MOVE && !(op.code == SWAP && op.a != op.b)) { op.code = SETI; }
    if (op.code == SETT && V_(op.a).gone) { op.text = "7"; op.imm = 10; }              // a refused text leaves a moved-from number as it was
    if (op.code == SWAP && V_(op.b).gone && V_(op.a).gone) op.code = SETI;
    if (needs_b(op.code) && V_(op.b).gone && op.code != SWAP) { op.code = SETI; }
    if (op.code >= NEW && op.code <= SDIV && op.code != MOVE && op.code != SWAP && op.code != NEWI && (V_(op.c).gone)) op.code = SETI;
    if (op.code == SDIV && V_(op.d).gone) op.code = SETI;
    if (V_(op.a).gone && impl != 1 && (op.code == DIVREM || op.code == MODQUO)) op.code = SETI;
    if ((op.code == DIV || op.code == MOD) && V_(op.b).zero()) op.code = ADD;
    if (op.code == NEW && ((op.imm & 7) == 3 || (op.imm & 7) == 4) && V_(op.c).zero()) op.imm &= ~7;
    if (op.code == NEWI && !impl && (op.k == 11 || op.k == 12) && V_(op.b).zero()) op.k = 8;
    if (op.code == R_BIN && ((op.imm & 7) == 3 || (op.imm & 7) == 4) && V_(op.b).zero()) op.imm &= ~7;
    if ((op.code == DIVREM || op.code == MODQUO) && (V_(op.b).zero() || op.c == op.a || op.c == op.b)) op.code = ADD;     // outputs must be different objects from the inputs
    if ((op.code == SMUL) && (op.a == op.b || op.a == op.c)) op.code = MUL;
    if (op.code == SDIV && (op.a == op.b || op.a == op.c || op.a == op.d || op.b == op.c || op.b == op.d || (V_(op.d).zero() && !(op.k & 1)))) op.code = ADD;
    size_t sa = V_(op.a).gone ? 0 : V_(op.a).mag.size(), sb = V_(op.b).gone ? 0 : V_(op.b).mag.size(), sc = V_(op.c).gone ? 0 : V_(op.c).mag.size();
    if (sa > (size_t)limit * (limit >= 100 ? 6 : 4) && !assigns(op.code) && !reads_only(op.code)) { op.code = SHR; op.imm = (std::int64_t)sa * 6; }
    if ((op.code == MUL || (op.code == R_BIN && (op.imm & 7) == 2)) && sa + sb > (size_t)limit * (limit >= 100 ? 8 : 4)) { op.code = op.code == MUL ? ADD : R_CMP; }
    if ((op.code == SMUL || (op.code == NEW && (op.imm & 7) == 2)) && sb + sc > (size_t)limit * (limit >= 100 ? 8 : 4)) { op.code = SETC; }
    return true;
}
// execute one operation of the program on a set; log it; returns false if it threw bad_alloc
template <class N> bool step(Op op, Set<N> &s, Log *log, const char *where, int limit, int fail_nth, int fail_len) {
    if (!adapt(op, s, limit)) return true;
    Num<N> *a = s.x[op.a], *b = s.x[op.b], *c = s.x[op.c], *d = s.x[op.d];
    Entry *e; { NoSim n; e = new Entry(); e->op = op; e->a = a->v; e->b = b->v; e->c = c->v; if (op.code == SDIV) e->d = d->v; e->failed = false; e->where = where; e->ab = op.a == op.b; e->ac = op.a == op.c; e->bc = op.b == op.c; }
    { NoSim n; if (getenv("SIM_SHOW")) { fprintf(stderr, "%s: [%d,%d,%d] %s\n", where, op.a, op.b, op.c, opdesc(*e).c_str()); } }
    if (fail_nth > 0) arm_alloc_nth(fail_nth, fail_len);
    bool failed = false;
    try { perform(op, a->n, b->n, c->n, d->n, e->o); }
    catch (const std::bad_alloc &) { failed = true; }
    if (fail_nth > 0) disarm_alloc();
    if (failed && fail_nth <= 0) violation("exception", "%s: %s throws bad_alloc although memory is available", where, opdesc(*e).c_str());
    {
        NoSim n; e->failed = failed;
    }
    if (op.code == MOVE && !failed) { NoSim n; b->v.gone = true; }
    if (op.code == SWAP && !failed) { bool ga = e->a.gone, gb = e->b.gone; NoSim n; a->v.gone = gb; b->v.gone = ga; }
    else if (!failed && !reads_only(op.code)) { NoSim n; a->v.gone = false; }
    if (!reads_only(op.code) && op.code != CTORS) { if (!a->v.gone && !(failed && e->a.gone)) snap(a->n, a->v); }
    if (bmod(op.code) && !b->v.gone) snap(b->n, b->v);
    if (cmod(op.code)) snap(c->n, c->v);
    if (failed && e->a.gone) { NoSim n; a->v.gone = true; }           // a moved-from number may hold anything still
    NoSim n; e->a2 = a->v; e->b2 = b->v; e->c2 = c->v; log->e.push_back(e);
    return !failed;
}

// ---------------------------------------------------------------- C10: long histories
template <class N> void history(bool faults, bool threads, int limit, int len, int nnum) {
    Set<N> s; Log *log = newlog();
    constexpr int impl = kind<N>(); swarm();
    for (int k = 0; k < nnum; ++k) {
        if (k > 0 && choice(3) == 0) s.add_copy(*s.x[choice(k)]);
        else { V v; gen_value(v, limit > 60 ? (choice(2) ? limit : 4) : 1 + choice(8)); s.add(v); NoSim n; std::string().swap(v.mag); }
    }
    describe("history over %d %s numbers, %d operations, limb limit %d%s%s;", nnum, kindname[impl], len, limit, faults ? ", allocation failures" : "", threads ? ", handed between threads" : "");
    Op op; int done = 0;
    auto chunk = [&](int m) {
        for (int k = 0; k < m; ++k) {
            gen_op(op, nnum, false, impl);
            int nth = faults && choice(4) == 0 ? 1 + (int)choice(6) : 0, l = nth ? 1 + (int)choice(3) : 0;
            step(op, s, log, "history", limit, nth, l);
            if (choice(6) == 0) s.check("history");
        }
    };
    while (done < len) {
        int m = 1 + choice(12);
        if (threads && choice(3)) { HThread t([&] { chunk(m); }); t.join(); }
        else chunk(m);
        done += m;
    }
    s.check("end of history");
    verify<N>(log);
    s.clear();
}
void sizes(int &limit, int &len, int &nnum) {
    switch (choice(10)) { case 0: limit = 180; len = 6 + choice(6); nnum = 3; break; case 1: case 2: limit = 24; len = 20 + choice(40); nnum = 2 + choice(3); break; default: limit = 8; len = 20 + choice(60); nnum = 2 + choice(4); }
}
SCENARIO("C10", num_history, 3, 40000000, false) { int l, n, c; sizes(l, n, c); history<BigInteger>(false, false, l, n, c); }
SCENARIO("C10", num_history_impl, 3, 40000000, false) { int l, n, c; sizes(l, n, c); history<BigIntegerImpl>(false, false, l, n, c); }
SCENARIO("C10", num_history_c, 2, 40000000, false) { int l, n, c; sizes(l, n, c); history<CNum>(false, choice(3) == 0, l, n, c); }
SCENARIO("C10", num_history_oom, 2, 40000000, false) { int l, n, c; sizes(l, n, c); history<BigInteger>(true, choice(2), l, n, c); }
SCENARIO("C10", num_history_impl_oom, 2, 40000000, false) { int l, n, c; sizes(l, n, c); history<BigIntegerImpl>(true, choice(2), l, n, c); }
SCENARIO("C10", num_history_threads, 2, 40000000, false) { int l, n, c; sizes(l, n, c); if (choice(2)) history<BigInteger>(false, true, l, n, c); else history<BigIntegerImpl>(false, true, l, n, c); }

// ---------------------------------------------------------------- C08: copies across threads
template <class N> struct Mail { std::mutex m; std::vector<Num<N> *> box; };
template <class N> void cow_threads(int nthreads, int nnum, int len, int limit) {
    constexpr int impl = kind<N>(); swarm();
    // programs are drawn before the threads start, so that the workload does not depend on the schedule
    struct Prog { std::vector<Op> ops; std::vector<uint8_t> act, tgt; std::vector<uint8_t> droplate; };
    std::vector<Prog> *progs; std::vector<Set<N>> *sets; std::vector<Log *> *logs; Mail<N> *mail; Set<N> *base;
    { NoSim n; progs = new std::vector<Prog>(nthreads); sets = new std::vector<Set<N>>(nthreads); logs = new std::vector<Log *>(nthreads); base = new Set<N>(); }
    mail = new Mail<N>();
    for (int k = 0; k < nnum; ++k) { V v; gen_value(v, 1 + choice(limit < 20 ? 6 : limit)); base->add(v); NoSim n; std::string().swap(v.mag); }
    // some base numbers already share digits and carry caches
    if (choice(2)) base->add_copy(*base->x[0]);
    if (choice(2)) { Obs o; Op op{R_WORD, 1, 0, 0, 0, 0, {}, 0}; perform(op, base->x[0]->n, base->x[0]->n, base->x[0]->n, base->x[0]->n, o); NoSim n; std::string().swap(o.s); }
    bool keepbase = choice(3) != 0;
    for (int t = 0; t < nthreads; ++t) {
        { NoSim n; (*logs)[t] = new Log(); }
        for (int k = 0; k < nnum; ++k) (*sets)[t].add_copy(*base->x[choice(base->x.size())]);
        for (int k = 0; k < len; ++k) {
            Op op; gen_op(op, nnum, choice(4) == 0, impl);
            uint8_t act = choice(8), tgt = choice(nnum);
            NoSim n; (*progs)[t].ops.push_back(op); (*progs)[t].act.push_back(act); (*progs)[t].tgt.push_back(tgt);
        }
    }
    describe("%d threads, each with %d %s numbers that share digits with those of the others, %d operations each, limb limit %d;", nthreads, nnum, kindname[impl], len, limit);
    if (!keepbase) base->clear();
    uint8_t mainacts = choice(6);
    {
        std::vector<HThread> ths; ths.reserve(nthreads);
        for (int t = 0; t < nthreads; ++t) ths.emplace_back([=] {
            Set<N> &s = (*sets)[t]; Prog &p = (*progs)[t]; Log *log = (*logs)[t];
            for (int k = 0; k < len; ++k) {
                step(p.ops[k], s, log, "thread", limit, 0, 0);
                int tgt = p.tgt[k];
                switch (p.act[k]) {
                case 0: if (!s.x[tgt]->v.gone) {               // put a copy of one of my numbers where another thread may take it
                        Set<N> tmp; tmp.add_copy(*s.x[tgt]); Num<N> *q; { NoSim n; q = tmp.x.back(); tmp.x.clear(); std::vector<Num<N> *>().swap(tmp.x); }
                        std::lock_guard<std::mutex> g(mail->m); NoSim n; mail->box.push_back(q); } break;
                case 1: {                                      // take a number from another thread: it is mine now
                        Num<N> *q = nullptr; { std::lock_guard<std::mutex> g(mail->m); NoSim n; if (!mail->box.empty()) { q = mail->box.front(); mail->box.erase(mail->box.begin()); } }
                        if (q) { Num<N> *old; { NoSim n; old = s.x[tgt]; s.x[tgt] = q; } Set<N>::drop(old); } } break;
                case 2: s.check("thread"); break;
                case 3: { Set<N> tmp; if (!s.x[tgt]->v.gone) { tmp.add_copy(*s.x[tgt]); tmp.clear(); } NoSim n; std::vector<Num<N> *>().swap(tmp.x); } break;
                default: break;
                }
            }
            if (p.tgt[0] & 1) s.check("thread end");
            if (p.act[0] & 1) s.clear();                       // otherwise another thread destroys them
        });
        for (int k = 0; k < mainacts && keepbase; ++k) { base->check("other thread"); if (k == 2) { V v; gen_value(v, 3); build(base->x[0]->n, v); NoSim n; base->x[0]->v = v; std::string().swap(v.mag); } }
        for (auto &h : ths) h.join();
    }
    base->check("after the threads");
    for (int t = 0; t < nthreads; ++t) (*sets)[t].check("after the threads");
    for (int t = 0; t < nthreads; ++t) verify<N>((*logs)[t]);
    for (int t = 0; t < nthreads; ++t) (*sets)[t].clear();
    base->clear();
    for (;;) { Num<N> *q; { NoSim n; if (mail->box.empty()) break; q = mail->box.back(); mail->box.pop_back(); } Set<N>::drop(q); }
    { NoSim n; std::vector<Num<N> *>().swap(mail->box); }
    delete mail;
}
SCENARIO("C08", cow_copies, 3, 40000000, true) { int t = 2 + choice(2), n = 1 + choice(3), l = 3 + choice(14); cow_threads<BigInteger>(t, n, l, 8); }
ALSO("C10", cow_copies, 1, 40000000, true)
SCENARIO("C08", cow_copies_c, 2, 40000000, true) { int t = 2 + choice(2), n = 1 + choice(3), l = 3 + choice(14); cow_threads<CNum>(t, n, l, 8); }
SCENARIO("C08", cow_copies_impl, 3, 40000000, true) { int t = 2 + choice(2), n = 1 + choice(3), l = 3 + choice(14); cow_threads<BigIntegerImpl>(t, n, l, 8); }
SCENARIO("C08", cow_few_ops, 3, 40000000, true) { int t = 2 + choice(2), n = 1, l = 1 + choice(3); if (choice(2)) cow_threads<BigIntegerImpl>(t, n, l, 8); else cow_threads<BigInteger>(t, n, l, 8); }
SCENARIO("C08", cow_big, 1, 80000000, true) { int t = 2, n = 1 + choice(2), l = 2 + choice(3); cow_threads<BigInteger>(t, n, l, 170); }

// ---------------------------------------------------------------- fractions: copies and readers on several threads (C08, C09, C10)
using experimental::Fraction;
struct FE { int kind; std::int64_t i; std::string n0, d0, n1, d1, out, n2, d2; };       // harness memory
void ftext(const BigInteger &x, std::string &to) { std::string s = x.toString(16); NoSim n; to.assign(s.data(), s.size()); }
bool fmods(int k) { return k < 10; }
void fperform(int kind, std::int64_t i, Fraction &x, const Fraction &g, std::string &out) {
    switch (kind) {
    case 0: x = x + g; break; case 1: x = x - g; break; case 2: x = x * g; break; case 3: if (g.getNum() != 0) x = x / g; break;
    case 4: x.setNum(BigInteger(i)); break; case 5: x.setDen(BigInteger(i | 1)); break; case 6: if (x.getNum() != 0) x = x.reciprocal(); break;
    case 7: x = Fraction(BigInteger(i), BigInteger((i >> 3) | 1)); break; case 8: x = g; break; case 9: { Fraction t(g); std::swap(x, t); x = x + t; break; }
    case 10: { std::string s = x.toString((int)(2 + ((std::uint64_t)i % 35))); NoSim n; out.assign(s.data(), s.size()); break; }
    case 11: { std::string s = x.toDecimal((int)((std::uint64_t)i % 12)); NoSim n; out.assign(s.data(), s.size()); break; }
    case 12: { Fraction y = x * g; ftext(y.getNum(), out); break; }
    case 13: { Fraction y = x - x; ftext(y.getDen(), out); break; }
    case 14: { Fraction y(x); y.setNum(g.getDen()); ftext(y.getNum(), out); break; }
    default: { BigInteger y = x.getNum() + x.getDen() * g.getNum(); ftext(y, out); break; }
    }
}
void fstep(int kind, std::int64_t i, Fraction &x, const Fraction &g, std::vector<FE *> &log) {
    if (x.getNum().absoluted() > BigInteger(StringArg("1000000000000000000000000000000000000000000000000"), 10) || x.getDen().absoluted() > BigInteger(StringArg("1000000000000000000000000000000000000000000000000"), 10)) { if (kind < 4 || kind == 9) kind = 7; }
    FE *e; { NoSim n; e = new FE(); e->kind = kind; e->i = i; }
    ftext(x.getNum(), e->n0); ftext(x.getDen(), e->d0); ftext(g.getNum(), e->n1); ftext(g.getDen(), e->d1);
    fperform(kind, i, x, g, e->out);
    ftext(x.getNum(), e->n2); ftext(x.getDen(), e->d2);
    NoSim n; log.push_back(e);
}
void fverify(std::vector<FE *> &log) {
    for (size_t k = 0;; ++k) {
        FE *e; std::string *o, *a, *b; { NoSim n; if (k >= log.size()) break; e = log[k]; o = new std::string; a = new std::string; b = new std::string; }
        Fraction x(BigInteger(StringArg(e->n0), 16), BigInteger(StringArg(e->d0), 16)), g(BigInteger(StringArg(e->n1), 16), BigInteger(StringArg(e->d1), 16));
        fperform(e->kind, e->i, x, g, *o);
        ftext(x.getNum(), *a); ftext(x.getDen(), *b);
        NoSim n;
        if (*o != e->out || *a != e->n2 || *b != e->d2) violation("wrong-result", "operation %d (%lld) on the fractions %s/%s and %s/%s (hexadecimal) gave %s/%s \"%s\", on new numbers it gives %s/%s \"%s\"", e->kind, (long long)e->i, e->n0.c_str(), e->d0.c_str(), e->n1.c_str(), e->d1.c_str(), e->n2.c_str(), e->d2.c_str(), e->out.c_str(), a->c_str(), b->c_str(), o->c_str());
        delete o; delete a; delete b;
    }
}
Fraction gen_frac() {
    V v, w; gen_value(v, 1 + choice(3)); gen_value(w, 1 + choice(2)); BigInteger n, d(1); build(n, v); if (!w.zero()) build(d, w);
    { NoSim ns; std::string().swap(v.mag); std::string().swap(w.mag); }
    return Fraction(n, d);
}
// shared: the threads only read common fractions; otherwise each works on copies of its own
void fraction_threads(bool shared) {
    int nth = 2 + (int)choice(2), nf = 1 + (int)choice(3), len = 1 + (int)choice(8);
    std::vector<Fraction> base; for (int k = 0; k < nf; ++k) base.push_back(k && choice(3) == 0 ? base[0] : gen_frac());
    struct P { int kind, a, b; std::int64_t i; }; struct Th { std::vector<Fraction> x; std::vector<FE *> log; P p[12]; };
    std::vector<std::string> before(nf * 2); for (int k = 0; k < nf; ++k) { ftext(base[k].getNum(), before[2 * k]); ftext(base[k].getDen(), before[2 * k + 1]); }
    std::vector<Th> th(nth);
    for (auto &t : th) { if (!shared) t.x = base; for (int k = 0; k < len; ++k) { t.p[k].kind = shared ? 10 + choice(6) : choice(16); t.p[k].a = choice(nf); t.p[k].b = choice(nf); t.p[k].i = gen_i64(); if (t.p[k].i < 0) t.p[k].i = -t.p[k].i; } }
    describe("%d threads, %d fractions %s, %d operations each;", nth, nf, shared ? "common to all" : "copied for each", len);
    bool drop = !shared && choice(2);
    if (drop) { base.clear(); base.shrink_to_fit(); }
    {
        std::vector<HThread> ts;
        for (auto &t : th) ts.emplace_back([&t, &base, shared, len] { for (int k = 0; k < len; ++k) { auto &p = t.p[k]; auto &set = shared ? base : t.x; fstep(p.kind, p.i, set[p.a], set[p.b], t.log); } });
        for (auto &t : ts) t.join();
    }
    for (size_t k = 0; k < base.size(); ++k) { std::string a, b; ftext(base[k].getNum(), a); ftext(base[k].getDen(), b); if (a != before[2 * k] || b != before[2 * k + 1]) violation("changed", "a fraction that was %s/%s now is %s/%s although nothing was done to it", before[2 * k].c_str(), before[2 * k + 1].c_str(), a.c_str(), b.c_str()); }
    for (auto &t : th) fverify(t.log);
    probe(36);
}
SCENARIO("C08", fraction_copies, 1, 40000000, true) { fraction_threads(false); }
ALSO("C10", fraction_copies, 1, 40000000, true)
SCENARIO("C09", fraction_readers, 1, 40000000, true) { fraction_threads(true); }
// ---------------------------------------------------------------- C09: one number read by many threads
template <class N> void shared_readers(int nthreads, int nnum, int len, int limit) {
    constexpr int impl = kind<N>(); swarm(1);
    Set<N> *s; std::vector<std::vector<Op>> *progs; std::vector<Log *> *logs; Log *hist;
    { NoSim n; s = new Set<N>(); progs = new std::vector<std::vector<Op>>(nthreads); logs = new std::vector<Log *>(nthreads); hist = new Log(); }
    for (int k = 0; k < nnum; ++k) {
        if (k > 0 && choice(3) == 0) s->add_copy(*s->x[choice(k)]);
        else { V v; gen_value(v, limit > 20 ? limit : 1 + choice(6)); s->add(v); NoSim n; std::string().swap(v.mag); }
    }
    uint32_t past = choice(4) ? choice(6) : 0;
    for (uint32_t k = 0; k < past; ++k) { Op op; gen_op(op, nnum, false, impl); if (op.code == MOVE || op.code == SWAP) continue; step(op, *s, hist, "before the threads", limit, 0, 0); NoSim n; std::string().swap(op.text); }
    for (int t = 0; t < nthreads; ++t) { { NoSim n; (*logs)[t] = new Log(); } for (int k = 0; k < len; ++k) { Op op; gen_op(op, nnum, true, impl); NoSim n; (*progs)[t].push_back(op); } }
    describe("%d threads read %d common %s numbers (%u operations before), %d reads each, limb limit %d;", nthreads, nnum, kindname[impl], past, len, limit);
    {
        std::vector<HThread> ths; ths.reserve(nthreads);
        for (int t = 0; t < nthreads; ++t) ths.emplace_back([=] { for (int k = 0; k < len; ++k) {
            Op op; { NoSim n; op = (*progs)[t][k]; }
            NoSim *dummy = nullptr; (void)dummy;
            if (!adapt(op, *s, limit)) continue;
            Num<N> *a = s->x[op.a], *b = s->x[op.b], *c = s->x[op.c];
            Entry *e; { NoSim n; e = new Entry(); e->op = op; e->a = a->v; e->b = b->v; e->c = c->v; e->a2 = a->v; e->b2 = b->v; e->c2 = c->v; e->failed = false; e->where = "concurrent reader"; e->ab = op.a == op.b; e->ac = op.a == op.c; e->bc = op.b == op.c; }
            perform(op, a->n, b->n, c->n, c->n, e->o);
            NoSim n; (*logs)[t]->e.push_back(e);
        } });
        for (auto &h : ths) h.join();
    }
    s->check("after the readers");
    for (int t = 0; t < nthreads; ++t) verify<N>((*logs)[t]);
    verify<N>(hist);
    s->clear();
}
SCENARIO("C09", readers, 3, 40000000, true) { int t = 2 + choice(3), n = 1 + choice(3), l = 1 + choice(10); shared_readers<BigInteger>(t, n, l, 8); }
SCENARIO("C09", readers_impl, 3, 40000000, true) { int t = 2 + choice(3), n = 1 + choice(3), l = 1 + choice(10); shared_readers<BigIntegerImpl>(t, n, l, 8); }
SCENARIO("C09", readers_c, 2, 40000000, true) { int t = 2 + choice(3), n = 1 + choice(3), l = 1 + choice(10); shared_readers<CNum>(t, n, l, 8); }
SCENARIO("C09", readers_big, 1, 80000000, true) { int t = 2, n = 1 + choice(2), l = 1 + choice(3); shared_readers<BigInteger>(t, n, l, 100); }

}  // namespace
void raise_by_fraction(int how, int v) {         // for the status scenarios
    switch (how) {
    case 0: { bool ok = true; Fraction f(BigInteger(v + 1), BigInteger(0), v & 1 ? nullptr : &ok); if (ok != !!(v & 1)) violation("wrong-status", "a fraction with denominator 0 reports success"); break; }
    case 1: {
        if (v & 1) { Fraction none(BigInteger(v), BigInteger(0)); PGBN_GetGlobalStatus() = ErrCode::SUCCESS; bool ok = true; Fraction r = none.reciprocal(v & 2 ? nullptr : &ok); if (ok != !!(v & 2)) violation("wrong-status", "the reciprocal of a fraction without denominator reports success"); break; }
        Fraction a(BigInteger(v + 1), BigInteger(7)), z(BigInteger(0), BigInteger(3)); Fraction q = a / z; (void)q; break; }
    case 2: { Fraction a(BigInteger(v + 1), BigInteger(7)); bool ok = true; a.setDen(BigInteger(0), v & 1 ? nullptr : &ok); if (ok != !!(v & 1)) violation("wrong-status", "setting denominator 0 reports success"); break; }
    default: { Fraction a(BigInteger(v + 1), BigInteger(7)); bool ok = false; Fraction r = a.reciprocal(&ok); if (!ok) violation("wrong-status", "a reciprocal reports failure"); break; }
    }
}
namespace {
// ---------------------------------------------------------------- C15: evaluations next to number operations on other threads, first uses included
template <class N> void ops_from_text(const std::vector<Op> &ops, Log *log) {
    Set<N> s; V z; { NoSim n; z.mag.reserve(8); }
    for (int k = 0; k < 2; ++k) { s.add(z); }
    for (auto &o : ops) step(o, s, log, "thread next to an evaluation", 8, 0, 0);
    s.clear(); NoSim n; std::vector<Num<N> *>().swap(s.x); std::string().swap(z.mag);
}
SCENARIO("C15", eval_numbers_15, 4, 40000000, true) {
    static const char *ex[] = {"(1+2*3)", "0xff*(12345678901234567890123-7)", "(7!)+(2**9)", "036xzz/7", "(1?2:3)-(0==0)", "123456789012345678901234567890%7 ", "((1<<70)|5)^(~3)", "-(12*12)"};
    int nt = 2 + (int)choice(3);
    struct T { int what, kind; std::vector<Op> ops; Log *log; std::string e, got; int th; Op one; }; std::vector<T> *ts; { NoSim n; ts = new std::vector<T>(nt); }
    describe("%d threads from the start of the process:", nt);
    for (auto &t : *ts) {
        t.what = choice(3); t.kind = choice(3); t.th = (int)choice(3);
        uint32_t k = choice(7); if (k == 5) k = 7; { NoSim n; t.log = new Log(); t.e = ex[k]; }
        int len = 1 + choice(6); bool ro = choice(4) == 0;
        if (t.what == 0) { for (int i = 0; i < len; ++i) { Op op; if (i == 0) { op.code = SETT; op.a = choice(2); op.b = op.c = op.d = 0; gen_text(op); op.imm = 2 + choice(35); } else gen_op(op, 2, ro && i > 1, t.kind == 0 ? 0 : t.kind == 1 ? 1 : 2); NoSim n; t.ops.push_back(op); } describe(" [%d operations on %s]", len, kindname[t.kind]); }
        else describe(" [%s \"%s\"]", t.th ? "peval" : "eval", t.e.c_str());
    }
    {
        std::vector<HThread> hs;
        for (auto &t : *ts) hs.emplace_back([&t] {
            if (t.what == 0) { if (t.kind == 0) ops_from_text<BigInteger>(t.ops, t.log); else if (t.kind == 1) ops_from_text<BigIntegerImpl>(t.ops, t.log); else ops_from_text<CNum>(t.ops, t.log); }
            else { BigInteger r = t.th ? pgbn::expr::peval(StringArg(t.e), t.th) : pgbn::expr::eval(StringArg(t.e)); ftext(r, t.got); }
        });
        for (auto &h : hs) h.join();
    }
    for (auto &t : *ts) {
        if (t.what == 0) { if (t.kind == 0) verify<BigInteger>(t.log); else if (t.kind == 1) verify<BigIntegerImpl>(t.log); else verify<CNum>(t.log); }
        else { std::string w; BigInteger r = pgbn::expr::eval(StringArg(t.e)); ftext(r, w); if (w != t.got) violation("interference", "%s of \"%s\" gives %s (hexadecimal) next to other threads, alone it gives %s", t.th ? "peval" : "eval", t.e.c_str(), t.got.c_str(), w.c_str()); }
    }
    probe(37);
}
// ---------------------------------------------------------------- C11: allocation failure
// the one-time initialisations of the library happen before the faults, so that they do not count as leaks
template <class N> void warm(int radix_all) {
    V v; { NoSim n; v.mag.assign("\x11\x22\x33\x44\x55\x66\x77\x18\x29\x3a\x4b\x5c\x6d\x01", 14); }
    { N a, b; build(a, v); build(b, v); std::string t = a.toString(10); bool ok; sett(b, "12345678901234567890123", 10, &ok); sett(b, "1-2", 10, &ok); bin(a, b, 3); (void)radix_all;
      if constexpr (std::is_same_v<N, BigInteger>) { (void)a.getUInt64(&ok); (void)a.getInt64(&ok); a <<= 100; (void)a.getUInt64(&ok); (void)a.getInt64(&ok); } }
    NoSim n; std::string().swap(v.mag);
}
template <class N> void oom_sequence() {
    constexpr int impl = kind<N>(); swarm();
    int limit, len, nnum; sizes(limit, len, nnum); len = 1 + len / 2;
    bool cold = choice(6) == 0;
    if (!cold) warm<N>(0);
    uint32_t mark = heap_mark();
    {
        Set<N> s; Log *log = newlog(); int fired = 0;
        for (int k = 0; k < nnum; ++k) {
            if (k > 0 && choice(3) == 0) s.add_copy(*s.x[choice(k)]);
            else { V v; gen_value(v, limit > 60 ? (choice(2) ? limit : 4) : 1 + choice(8)); s.add(v); NoSim n; std::string().swap(v.mag); }
        }
        for (int k = 0; k < len; ++k) {
            Op op; gen_op(op, nnum, false, impl);
            // which allocation fails: early ones mostly, for longer operations anywhere
            uint32_t far = choice(4); int nth = far == 0 ? 1 + choice(40) : 1 + choice(5); uint32_t how = choice(5); int l = how == 0 ? 1000000 : how == 1 ? 2 + choice(4) : 1;
            uint64_t f0 = alloc_fired();
            bool ok = step(op, s, log, "out of memory", limit, nth, l);
            if (alloc_fired() != f0) { ++fired; probe(30); }
            if (!ok) {
                probe(31);
                s.check("after a failed operation");          // all numbers readable, the untouched ones unchanged
                if (choice(2)) step(op, s, log, "retry", limit, 0, 0);
            } else if (alloc_fired() != f0) probe(32);
            NoSim n; std::string().swap(op.text);
        }
        describe("%d operations on %d %s numbers, limb limit %d, %d with failing allocations%s;", len, nnum, kindname[impl], limit, fired, cold ? ", first use in the process" : "");
        s.check("end");
        verify<N>(log);
        s.clear();
        NoSim n; std::vector<Num<N> *>().swap(s.x);
    }
    if (!cold) check_leaks(mark, "number operations with failing allocations");
}
SCENARIO("C11", oom_numbers, 3, 40000000, false) { oom_sequence<BigInteger>(); }
SCENARIO("C11", oom_numbers_impl, 3, 40000000, false) { oom_sequence<BigIntegerImpl>(); }

// one operation, every one of its allocations fails in turn
template <class N> void oom_sweep() {
    constexpr int impl = kind<N>();
    int limit = choice(8) == 0 ? 100 : 8, nnum = 3;
    warm<N>(0);
    uint32_t mark = heap_mark();
    {
        Set<N> base; Log *log = newlog();
        for (int k = 0; k < nnum; ++k) { V v; gen_value(v, limit > 60 ? 100 : 1 + choice(8)); base.add(v); NoSim n; std::string().swap(v.mag); }
        Op op; gen_op(op, nnum, false, impl);
        bool share = choice(2); uint32_t start = choice(3) ? 1 : 1 + choice(30), len = choice(3) == 0 ? 1000000 : 1; int n = 0;
        describe("%s (%s), allocation %u and following fail in turn, operands %s;", opname[op.code], kindname[impl], start, share ? "shared" : "not shared");
        for (uint32_t k = start; k < start + 60; ++k) {
            Set<N> s;
            for (int j = 0; j < nnum; ++j) { if (share) s.add_copy(*base.x[j]); else s.add(base.x[j]->v); }
            uint64_t f0 = alloc_fired();
            step(op, s, log, "out of memory", limit, k, len);
            bool fired = alloc_fired() != f0; ++n;
            base.check("sharing number"); s.check("after the operation");
            s.clear(); { NoSim ns; std::vector<Num<N> *>().swap(s.x); }
            if (!fired) break;
            probe(33);
        }
        verify<N>(log);
        base.clear();
        NoSim ns; std::string().swap(op.text); std::vector<Num<N> *>().swap(base.x);
    }
    check_leaks(mark, "one operation with failing allocations");
}
SCENARIO("C11", oom_sweep_numbers, 3, 80000000, false) { oom_sweep<BigInteger>(); }
SCENARIO("C11", oom_sweep_impl, 3, 80000000, false) { oom_sweep<BigIntegerImpl>(); }

// constructing numbers while memory is short
SCENARIO("C11", oom_construct, 2, 20000000, false) {
    warm<BigInteger>(0); warm<BigIntegerImpl>(0);
    uint32_t mark = heap_mark(); int rounds = 4 + choice(20), threw = 0;
    BigInteger keep1(StringArg("123456789012345678901234567890123456789"), 10);
    for (int k = 0; k < rounds; ++k) {
        Op op; op.text.clear(); gen_text(op); uint32_t kind = choice(9); std::int64_t i = gen_i64(); int nth = 1 + choice(6), len = choice(3) ? 1 : 1000000; bool ok = true;
        V v; snap(keep1, v);
        V got; bool have = false;
        arm_alloc_nth(nth, len);
        try {
            switch (kind) {
            case 0: { BigInteger x; disarm_alloc(); snap(x, got); have = true; break; }
            case 1: { BigInteger x(i); disarm_alloc(); snap(x, got); have = true; break; }
            case 2: { BigInteger x(StringArg(op.text.data(), op.text.size()), 10, &ok); disarm_alloc(); snap(x, got); have = true; break; }
            case 3: { BigInteger x(keep1); disarm_alloc(); snap(x, got); have = true; break; }
            case 4: { BigInteger x(op.text.size(), op.text.data(), true); disarm_alloc(); snap(x, got); have = true; break; }
            case 5: { BigInteger x = keep1 + i; disarm_alloc(); snap(x, got); have = true; break; }
            case 6: { std::vector<BigInteger> w(3, keep1); w.push_back(BigInteger(i)); disarm_alloc(); snap(w[2], got); have = true; break; }
            case 7: { BigIntegerImpl x(StringArg(op.text.data(), op.text.size()), 10, &ok); BigIntegerImpl y(x); disarm_alloc(); snap(y, got); have = true; break; }
            default: { BigIntegerImpl x(op.text.data(), op.text.size(), false); BigIntegerImpl y(std::move(x)); disarm_alloc(); snap(y, got); have = true; break; }
            }
        } catch (const std::bad_alloc &) { threw++; probe(34); }
        disarm_alloc();
        if (have) {                                         // the same construction with memory available
            V want;
            switch (kind) {
            case 0: { BigInteger x; snap(x, want); break; }
            case 1: { BigInteger x(i); snap(x, want); break; }
            case 2: { BigInteger x(StringArg(op.text.data(), op.text.size()), 10, &ok); snap(x, want); break; }
            case 3: case 6: snap(keep1, want); break;
            case 4: { BigInteger x(op.text.size(), op.text.data(), true); snap(x, want); break; }
            case 5: { BigInteger x = keep1 + i; snap(x, want); break; }
            case 7: { BigIntegerImpl x(StringArg(op.text.data(), op.text.size()), 10, &ok); snap(x, want); break; }
            default: { BigIntegerImpl x(op.text.data(), op.text.size(), false); snap(x, want); break; }
            }
            NoSim n; if (!(got == want)) violation("wrong-result", "construction %u under failing allocations gave %s, otherwise %s", kind, got.hex().c_str(), want.hex().c_str());
            std::string().swap(want.mag);
        }
        V v2; snap(keep1, v2);
        NoSim n; if (!(v == v2)) violation("changed", "a number changed from %s to %s while another was being constructed", v.hex().c_str(), v2.hex().c_str());
        std::string().swap(v.mag); std::string().swap(v2.mag); std::string().swap(got.mag); std::string().swap(op.text);
    }
    describe("%d constructions, %d failed;", rounds, threw);
    { BigInteger gone(std::move(keep1)); }
    check_leaks(mark, "constructions with failing allocations");
}
// fractions
void frac_text(const experimental::Fraction &f, std::string &to) { std::string s = f.toString(10); NoSim n; to.assign(s.data(), s.size()); }
SCENARIO("C11", oom_fraction, 2, 20000000, false) {
    using experimental::Fraction;
    warm<BigInteger>(0);
    { Fraction a(BigInteger(6), BigInteger(4)), b(BigInteger(7), BigInteger(3)); std::string s = (a + b * a - b / a).toString(10) + a.toDecimal(5); a.setNum(3); a.setDen(9); }
    uint32_t mark = heap_mark();
    int rounds = 4 + choice(10), threw = 0;
    {
        Fraction f(BigInteger(gen_i64()), BigInteger(360)), g(BigInteger(gen_i64() | 1), BigInteger(StringArg("18446744073709551615"), 10));
        std::string *f0, *g0, *f1, *g1, *w; { NoSim n; f0 = new std::string; g0 = new std::string; f1 = new std::string; g1 = new std::string; w = new std::string; }
        for (int k = 0; k < rounds; ++k) {
            uint32_t kind = choice(10); std::int64_t i = gen_i64() | 1; int nth = 1 + (choice(3) ? choice(12) : choice(80)), len = choice(3) ? 1 : 1000000;
            if (f.getNum().absoluted() > BigInteger(StringArg("1000000000000000000000000000000000000000000000000000000000000"), 10)) f = Fraction(BigInteger(i), BigInteger(77));
            frac_text(f, *f0); frac_text(g, *g0);
            Fraction ff = f;                                     // twin, computed with memory available
            auto doit = [&](Fraction &x) -> std::string {
                switch (kind) {
                case 0: x = x + g; break; case 1: x = x - g; break; case 2: x = x * g; break; case 3: x = x / g; break;
                case 4: x.setNum(BigInteger(i)); break; case 5: x.setDen(BigInteger(i)); break;
                case 6: if (x.getNum().cmp(0) != 0) x = x.reciprocal(); break; case 7: x = Fraction(BigInteger(i), BigInteger(i + 7 == 0 ? 3 : i + 7)); break;
                case 8: return x.toString(10); default: return x.toDecimal(6);
                }
                return {};
            };
            std::string *o1, *o2; { NoSim n; o1 = new std::string; o2 = new std::string; }
            { std::string t = doit(ff); NoSim n; o1->assign(t.data(), t.size()); }
            bool failed = false; uint64_t fi = alloc_fired();
            arm_alloc_nth(nth, len);
            try { std::string t = doit(f); disarm_alloc(); NoSim n; o2->assign(t.data(), t.size()); } catch (const std::bad_alloc &) { failed = true; ++threw; probe(35); }
            disarm_alloc(); (void)fi;
            frac_text(f, *f1); frac_text(g, *g1); frac_text(ff, *w);
            NoSim n;
            if (*g0 != *g1) violation("changed", "fraction operand changed from %s to %s", g0->c_str(), g1->c_str());
            if (failed ? (*f1 != *f0 && *f1 != *w) : *f1 != *w) violation("half-done", "fraction operation %u %s: was %s, is %s, complete result %s", kind, failed ? "failed" : "succeeded", f0->c_str(), f1->c_str(), w->c_str());
            if (!failed && *o1 != *o2) violation("wrong-result", "fraction operation %u reported %s, with memory available %s", kind, o2->c_str(), o1->c_str());
            delete o1; delete o2;
        }
        NoSim n; delete f0; delete g0; delete f1; delete g1; delete w;
    }
    describe("%d fraction operations, %d failed;", rounds, threw);
    check_leaks(mark, "fraction operations with failing allocations");
}
}  // namespace
