#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <unordered_map>
#include <unordered_set>
#include <map>

std::vector<Symbol> g_syms;
std::vector<Expr*> g_exprs;

const char *kindName(Kind k) {
    static const char *n[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr",
        "eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","fsqrt",
        "feq","flt","fle","fisnan","fext","ftrunc","ftosi","ftoui","sitof","uitof","frnd"};
    return n[k];
}

static SymSet g_emptySet;
static std::map<std::vector<uint32_t>, SymSet*> g_sets;
static SymSet *internSet(std::vector<uint32_t> &&v) {
    if (v.empty()) return &g_emptySet;
    auto it = g_sets.find(v);
    if (it != g_sets.end()) return it->second;
    auto s = new SymSet; s->v = v; s->id = g_sets.size() + 1;
    g_sets.emplace(std::move(v), s);
    return s;
}
static std::unordered_map<uint64_t, SymSet*> g_unionMemo;
static SymSet *unionSet(SymSet *a, SymSet *b) {
    if (a == b || b->v.empty()) return a;
    if (a->v.empty()) return b;
    if (a->id > b->id) std::swap(a, b);
    uint64_t key = ((uint64_t)a->id << 32) | b->id;
    auto it = g_unionMemo.find(key);
    if (it != g_unionMemo.end()) return it->second;
    std::vector<uint32_t> v;
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(v));
    return g_unionMemo[key] = internSet(std::move(v));
}

struct H { size_t operator()(const Expr *e) const { return e->hash; } };
struct EqE { bool operator()(const Expr *a, const Expr *b) const {
    return a->k == b->k && a->w == b->w && a->a == b->a && a->b == b->b && a->c == b->c && a->val == b->val; } };
static std::unordered_set<Expr*, H, EqE> g_tab;

static void knownBits(Expr *e);

static Expr *intern(Kind k, unsigned w, Expr *a, Expr *b, Expr *c, u128 val) {
    Expr t;
    t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.val = val;
    uint64_t h = k * 0x9E3779B97F4A7C15ull + w;
    auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
    mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0); mix((uint64_t)val); mix((uint64_t)(val >> 64));
    t.hash = (uint32_t)h;
    auto it = g_tab.find(&t);
    if (it != g_tab.end()) return *it;
    auto e = new Expr(t);
    e->id = g_exprs.size();
    e->z3 = nullptr; e->stamp = 0;
    if (k == K_Sym) { e->syms = internSet({(uint32_t)val}); }
    else {
        SymSet *s = &g_emptySet;
        if (a) s = unionSet(s, a->syms);
        if (b) s = unionSet(s, b->syms);
        if (c) s = unionSet(s, c->syms);
        e->syms = s;
    }
    e->kz = e->ko = 0;
    if (w <= 64) knownBits(e);
    g_exprs.push_back(e);
    g_tab.insert(e);
    return e;
}

static void knownBits(Expr *e) {
    uint64_t m = mask64(e->w), kz = 0, ko = 0;
    Expr *a = e->a, *b = e->b;
    switch (e->k) {
        case K_Const: ko = (uint64_t)e->val; kz = ~ko; break;
        case K_And: kz = a->kz | b->kz; ko = a->ko & b->ko; break;
        case K_Or: kz = a->kz & b->kz; ko = a->ko | b->ko; break;
        case K_Xor: kz = (a->kz & b->kz) | (a->ko & b->ko); ko = (a->kz & b->ko) | (a->ko & b->kz); break;
        case K_Shl: if (isC(b) && b->val < e->w) { unsigned s = b->val; kz = (a->kz << s) | mask64(s); ko = a->ko << s; } break;
        case K_LShr: if (isC(b) && b->val < e->w) { unsigned s = b->val; kz = ((a->kz & m) >> s) | (m & ~(m >> s)); ko = (a->ko & m) >> s; } break;
        case K_ZExt: kz = (a->kz & mask64(a->w)) | ~mask64(a->w); ko = a->ko; break;
        case K_SExt: { uint64_t am = mask64(a->w), sb = 1ull << (a->w - 1); kz = a->kz & am; ko = a->ko & am;
            if (a->kz & sb) kz |= ~am; if (a->ko & sb) ko |= ~am; break; }
        case K_Concat: if (b->w < 64) { kz = (a->kz << b->w) | (b->kz & mask64(b->w)); ko = (a->ko << b->w) | (b->ko & mask64(b->w)); } break;
        case K_Extract: if (a->w <= 64) { kz = a->kz >> (unsigned)e->val; ko = a->ko >> (unsigned)e->val; } break;
        case K_Ite: kz = b->kz & e->c->kz; ko = b->ko & e->c->ko; break;
        case K_Add: case K_Mul: {
            // leading zeros via maxima, trailing zeros via minima
            uint64_t ma = ~a->kz & m, mb = ~b->kz & m; u128 mx = e->k == K_Add ? (u128)ma + mb : (u128)ma * mb;
            if (mx <= m) { unsigned lz = mx == 0 ? 64 : __builtin_clzll((uint64_t)mx); kz |= lz >= 64 ? ~0ull : ~(~0ull >> lz); }
            unsigned ta = (~a->kz & m) ? __builtin_ctzll(~a->kz & m) : e->w, tb = (~b->kz & m) ? __builtin_ctzll(~b->kz & m) : e->w;
            unsigned tz = e->k == K_Add ? std::min(ta, tb) : std::min(ta + tb, (unsigned)e->w);
            kz |= mask64(tz);
            break; }
        case K_UDiv: case K_URem: {
            uint64_t ma = ~a->kz & m; unsigned lz = ma == 0 ? 64 : __builtin_clzll(ma);
            if (e->k == K_UDiv ? b->ko != 0 : true) kz |= lz >= 64 ? ~0ull : ~(~0ull >> lz);
            if (e->k == K_URem && isC(b) && b->val) { uint64_t mb = (uint64_t)b->val - 1; unsigned l2 = mb == 0 ? 64 : __builtin_clzll(mb); kz |= l2 >= 64 ? ~0ull : ~(~0ull >> l2); }
            break; }
        default: break;
    }
    e->kz = kz & m; e->ko = ko & m;
}

Expr *mkConst(u128 v, unsigned w) { return intern(K_Const, w, 0, 0, 0, v & mask128(w)); }
Expr *mkSym(const std::string &name, unsigned w) {
    uint32_t idx = g_syms.size();
    g_syms.push_back({name, (uint16_t)w, nullptr});
    auto e = intern(K_Sym, w, 0, 0, 0, idx);
    g_syms[idx].e = e;
    return e;
}

u128 foldBin(Kind k, u128 a, u128 b, unsigned w) {
    u128 m = mask128(w);
    a &= m; b &= m;
    switch (k) {
        case K_Add: return (a + b) & m;
        case K_Sub: return (a - b) & m;
        case K_Mul: return (a * b) & m;
        case K_UDiv: return b ? (a / b) & m : m;
        case K_URem: return b ? (a % b) & m : a;
        case K_SDiv: { i128 x = sext128(a, w), y = sext128(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
        case K_SRem: { i128 x = sext128(a, w), y = sext128(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
        case K_And: return a & b;
        case K_Or: return a | b;
        case K_Xor: return a ^ b;
        case K_Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
        case K_LShr: return b >= w ? 0 : a >> (unsigned)b;
        case K_AShr: { i128 x = sext128(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m; }
        case K_Eq: return a == b;
        case K_Ult: return a < b;
        case K_Ule: return a <= b;
        case K_Slt: return sext128(a, w) < sext128(b, w);
        case K_Sle: return sext128(a, w) <= sext128(b, w);
        default: abort();
    }
}

static bool isCmp(Kind k) { return k >= K_Eq && k <= K_Sle; }
static bool isComm(Kind k) { return k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor || k == K_Eq; }

Expr *mkNot(Expr *e) { return mkBin(K_Xor, e, mkConst(~(u128)0, e->w)); }

// signed bounds derivable from known bits
static inline uint64_t umin(Expr *e) { return e->ko; }
static inline uint64_t umax(Expr *e) { return ~e->kz & mask64(e->w); }

static bool iteOfConsts(Expr *e) { return e->k == K_Ite && isC(e->b) && isC(e->c); }
static bool iteHasConst(Expr *e) { return e->k == K_Ite && (isC(e->b) || isC(e->c)); }

// comparisons of sums that cannot overflow: common summands cancel, the rest is compared in the width it needs
struct Sum { Expr *t[16]; unsigned n = 0; u128 c = 0; };
static bool flatSum(Expr *e, unsigned w, Sum &s) {
    if (isC(e)) { s.c += e->val; return true; }
    if (e->k == K_Add) return flatSum(e->a, w, s) && flatSum(e->b, w, s);
    if (e->k == K_ZExt && e->a->k == K_Add && e->a->w <= 64) { Expr *x = e->a->a, *y = e->a->b; if ((u128)umax(x) + umax(y) <= mask128(e->a->w)) return flatSum(mkZExt(x, e->w), w, s) && flatSum(mkZExt(y, e->w), w, s); }
    if (s.n == 16) return false;
    s.t[s.n++] = e; return true;
}
static bool isSum(Expr *e) { return e->k == K_Add || (e->k == K_ZExt && e->a->k == K_Add); }
static Expr *cmpSums(Kind k, Expr *a, Expr *b, unsigned w) {
    Sum s, t; if (!flatSum(a, w, s) || !flatSum(b, w, t)) return nullptr;
    u128 ma = s.c, mb = t.c; if (ma >> 64 || mb >> 64) return nullptr;
    for (unsigned i = 0; i < s.n; i++) ma += umax(s.t[i]); for (unsigned i = 0; i < t.n; i++) mb += umax(t.t[i]);
    if (ma > mask128(w) || mb > mask128(w)) return nullptr;
    bool ch = false;
    for (unsigned i = 0; i < s.n; ) { bool hit = false; for (unsigned j = 0; j < t.n; j++) if (s.t[i] == t.t[j]) { ma -= umax(s.t[i]); mb -= umax(s.t[i]); s.t[i] = s.t[--s.n]; t.t[j] = t.t[--t.n]; hit = ch = true; break; } if (!hit) i++; }
    u128 c = s.c < t.c ? s.c : t.c; if (c) { s.c -= c; t.c -= c; ma -= c; mb -= c; ch = true; }
    unsigned nb = 1; while ((ma >> nb) || (mb >> nb)) nb++;
    if (!ch && nb >= w) return nullptr;
    auto build = [&](Sum &q) { std::sort(q.t, q.t + q.n, [](Expr *x, Expr *y) { return x->id < y->id; }); Expr *r = nullptr; for (unsigned i = 0; i < q.n; i++) { Expr *x = nb < w ? mkExtract(q.t[i], 0, nb) : q.t[i]; r = r ? mkBin(K_Add, r, x) : x; } Expr *cc = mkConst(q.c, nb); return r ? (q.c ? mkBin(K_Add, r, cc) : r) : cc; };
    if (nb > w) nb = w;
    Expr *x = build(s), *y = build(t); return mkBin(k, x, y);
}

Expr *mkBin(Kind k, Expr *a, Expr *b) {
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch %s %u %u\n", kindName(k), a->w, b->w); abort(); }
    unsigned rw = isCmp(k) ? 1 : w;
    if (isC(a) && isC(b) && w <= 128) return mkConst(foldBin(k, a->val, b->val, w), rw);
    if (isComm(k)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); } // constant on the right
    bool cb = isC(b) && w <= 128;
    u128 bv = cb ? b->val : 0;
    u128 m = mask128(w);
    switch (k) {
        case K_Add:
            if (cb && bv == 0) return a;
            if (cb && a->k == K_Add && isC(a->b)) return mkBin(K_Add, a->a, mkConst(a->b->val + bv, w));
            if (cb && iteOfConsts(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
            break;
        case K_Sub:
            if (a == b) return mkConst(0, w);
            if (cb) return mkBin(K_Add, a, mkConst((u128)0 - bv, w));
            if (a->k == K_Add && a->a == b) return a->b;
            if (a->k == K_Add && a->b == b) return a->a;
            break;
        case K_Mul:
            if (cb && bv == 0) return b;
            if (cb && bv == 1) return a;
            if (cb && w <= 64 && (bv & (bv - 1)) == 0) return mkBin(K_Shl, a, mkConst(__builtin_ctzll((uint64_t)bv), w));
            if (cb && iteOfConsts(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
            break;
        case K_UDiv:
            if (cb && bv == 1) return a;
            if (cb && w <= 64 && bv && (bv & (bv - 1)) == 0) return mkBin(K_LShr, a, mkConst(__builtin_ctzll((uint64_t)bv), w));
            if (w <= 64 && umax(a) < umin(b)) return mkConst(0, w);
            break;
        case K_URem:
            if (cb && bv == 1) return mkConst(0, w);
            if (cb && w <= 64 && bv && (bv & (bv - 1)) == 0) return mkBin(K_And, a, mkConst(bv - 1, w));
            if (w <= 64 && umax(a) < umin(b)) return a;
            break;
        case K_SDiv: case K_SRem:
            if (w <= 64 && !(umax(a) >> (w - 1)) && !(umax(b) >> (w - 1)))
                return mkBin(k == K_SDiv ? K_UDiv : K_URem, a, b);
            if (k == K_SDiv && cb && bv == 1) return a;
            break;
        case K_And:
            if (a == b) return a;
            if (cb && bv == 0) return b;
            if (cb && bv == m) return a;
            if (w <= 64) {
                if (cb) {
                    uint64_t nb = ~(uint64_t)bv & mask64(w);
                    if ((a->kz & nb) == nb) return a;                // masked-out bits already zero
                    if ((a->kz & (uint64_t)bv) == (uint64_t)bv) return mkConst(0, w);
                }
                if ((a->kz | b->kz) == mask64(w)) return mkConst(0, w);
            }
            if (cb && a->k == K_And && isC(a->b)) return mkBin(K_And, a->a, mkConst(a->b->val & bv, w));
            if (w == 1) { // boolean absorption
                if (a == mkNot(b)) return mkConst(0, 1);
                if (a->k == K_And && (a->a == b || a->b == b)) return a;
                if (b->k == K_And && (b->a == a || b->b == a)) return b;
            }
            if (cb && w <= 64) { // low mask == zext(extract)
                uint64_t x = (uint64_t)bv;
                if ((x & (x + 1)) == 0 && x) { unsigned n = __builtin_popcountll(x); if (n < w) return mkZExt(mkExtract(a, 0, n), w); }
                if (iteOfConsts(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
                if (a->k == K_ZExt && a->a->w < w) return mkZExt(mkBin(K_And, a->a, mkConst(bv, a->a->w)), w);
                if (a->k == K_Concat) return mkConcat(mkBin(K_And, a->a, mkConst(bv >> a->b->w, a->a->w)), mkBin(K_And, a->b, mkConst(bv, a->b->w)));
            }
            break;
        case K_Or:
            if (a == b) return a;
            if (cb && bv == 0) return a;
            if (cb && bv == m) return b;
            if (w == 1) {
                if (a == mkNot(b)) return mkConst(1, 1);
                if (a->k == K_Or && (a->a == b || a->b == b)) return a;
                if (b->k == K_Or && (b->a == a || b->b == a)) return b;
            }
            if (cb && w <= 64 && iteOfConsts(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
            if (cb && w <= 64 && (a->ko & (uint64_t)bv) == (uint64_t)bv) return a;
            if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mkZExt(mkBin(K_Or, a->a, b->a), w);
            if (w <= 64 && w > 1) { // disjoint parts: zext(x) | (y << n) => concat
                for (int sw = 0; sw < 2; sw++) {
                    Expr *lo = sw ? b : a, *hi = sw ? a : b;
                    if (lo->k == K_ZExt && hi->k == K_Shl && isC(hi->b) && hi->b->val >= lo->a->w && hi->b->val < w) {
                        unsigned s = hi->b->val; Expr *l = mkZExt(lo->a, s);
                        return mkConcat(mkExtract(hi->a, 0, w - s), l);
                    }
                    if (lo->k == K_ZExt && hi->k == K_Concat && isC(hi->b) && hi->b->val == 0 && hi->b->w >= lo->a->w)
                        return mkConcat(hi->a, mkZExt(lo->a, hi->b->w));
                    if (lo->k == K_ZExt && hi->k == K_ZExt && hi->a->k == K_Concat && isC(hi->a->b) && hi->a->b->val == 0 && hi->a->b->w >= lo->a->w)
                        return mkZExt(mkConcat(hi->a->a, mkZExt(lo->a, hi->a->b->w)), w);
                }
            }
            break;
        case K_Xor:
            if (a == b) return mkConst(0, w);
            if (cb && bv == 0) return a;
            if (cb && a->k == K_Xor && isC(a->b)) return mkBin(K_Xor, a->a, mkConst(a->b->val ^ bv, w));
            if (a->k == K_Xor && a->b == b) return a->a;
            if (a->k == K_Xor && a->a == b) return a->b;
            if (b->k == K_Xor && b->a == a) return b->b;
            if (b->k == K_Xor && b->b == a) return b->a;
            if (cb && iteOfConsts(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
            if (w == 1 && cb && bv == 1) { // negate comparisons
                if (a->k == K_Ult) return mkBin(K_Ule, a->b, a->a);
                if (a->k == K_Ule) return mkBin(K_Ult, a->b, a->a);
                if (a->k == K_Slt) return mkBin(K_Sle, a->b, a->a);
                if (a->k == K_Sle) return mkBin(K_Slt, a->b, a->a);
            }
            break;
        case K_Shl: case K_LShr: case K_AShr:
            if (cb && bv == 0) return a;
            if (isC(a) && a->val == 0) return a;
            if (cb && k != K_AShr) {
                if (bv >= w) return mkConst(0, w);
                unsigned s = (unsigned)bv;
                if (k == K_Shl) return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
                return mkZExt(mkExtract(a, s, w - s), w);
            }
            if (cb && k == K_AShr) {
                unsigned s = bv >= w ? w - 1 : (unsigned)bv;
                return mkSExt(mkExtract(a, s, w - s), w);
            }
            if (w <= 64 && k == K_AShr && (a->kz >> (w - 1) & 1)) return mkBin(K_LShr, a, b);
            if (w <= 64 && umin(b) >= w && k != K_AShr) return mkConst(0, w);
            break;
        case K_Eq:
            if (a == b) return mkConst(1, 1);
            if (w <= 64) {
                if ((a->ko & b->kz) || (a->kz & b->ko)) return mkConst(0, 1);
            }
            if (w == 1 && cb) return bv ? a : mkNot(a);
            if (cb) {
                if (iteHasConst(a)) {
                    Expr *t = isC(a->b) ? mkConst(a->b->val == bv, 1) : nullptr, *f = isC(a->c) ? mkConst(a->c->val == bv, 1) : nullptr;
                    if (t && f) return t == f ? t : (isTrue(t) ? a->a : mkNot(a->a));
                    if (t) { if (isTrue(t)) return mkBin(K_Or, a->a, mkBin(K_Eq, a->c, b)); return mkBin(K_And, mkNot(a->a), mkBin(K_Eq, a->c, b)); }
                    if (isTrue(f)) return mkBin(K_Or, mkNot(a->a), mkBin(K_Eq, a->b, b));
                    return mkBin(K_And, a->a, mkBin(K_Eq, a->b, b));
                }
                if (a->k == K_ZExt) { if (bv >> a->a->w) return mkConst(0, 1); return mkBin(K_Eq, a->a, mkConst(bv, a->a->w)); }
                if (a->k == K_SExt) { u128 tr = bv & mask128(a->a->w); if ((((u128)sext128(tr, a->a->w)) & m) != bv) return mkConst(0, 1); return mkBin(K_Eq, a->a, mkConst(tr, a->a->w)); }
                if (a->k == K_Concat && w <= 128) {
                    unsigned lw = a->b->w;
                    return mkBin(K_And, mkBin(K_Eq, a->a, mkConst(bv >> lw, a->a->w)), mkBin(K_Eq, a->b, mkConst(bv, lw)));
                }
                if (a->k == K_Add && isC(a->b)) return mkBin(K_Eq, a->a, mkConst(bv - a->b->val, w));
                if (a->k == K_Xor && isC(a->b)) return mkBin(K_Eq, a->a, mkConst(bv ^ a->b->val, w));
                if (a->k == K_Sub && bv == 0) return mkBin(K_Eq, a->a, a->b);
                if (a->k == K_Xor && bv == 0) return mkBin(K_Eq, a->a, a->b);
                if (a->k == K_Or && bv == 0) return mkBin(K_And, mkBin(K_Eq, a->a, b), mkBin(K_Eq, a->b, b));
            }
            if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mkBin(K_Eq, a->a, b->a);
            if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return mkBin(K_Eq, a->a, b->a);
            if (a->k == K_Concat && b->k == K_Concat && a->b->w == b->b->w)
                return mkBin(K_And, mkBin(K_Eq, a->a, b->a), mkBin(K_Eq, a->b, b->b));
            if (a->k == K_Add && b->k == K_Add && a->a == b->a) return mkBin(K_Eq, a->b, b->b);
            if (w > 1 && w <= 64 && !cb && (isSum(a) || isSum(b))) if (Expr *r = cmpSums(k, a, b, w)) return r;
            break;
        case K_Ult:
            if (a == b) return mkConst(0, 1);
            if (cb && bv == 0) return mkConst(0, 1);
            if (cb && bv == 1) return mkBin(K_Eq, a, mkConst(0, w));
            if (isC(a) && a->val == m) return mkConst(0, 1);
            if (w <= 64) { if (umax(a) < umin(b)) return mkConst(1, 1); if (umin(a) >= umax(b)) return mkConst(0, 1); }
            if (isC(a) && a->val == 0) return mkNot(mkBin(K_Eq, b, a));
            if (cb && iteOfConsts(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
            if (isC(a) && iteOfConsts(b)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
            if (w == 1) return mkBin(K_And, mkNot(a), b);
            if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
            if (cb && a->k == K_ZExt) return bv >> a->a->w ? mkConst(1, 1) : mkBin(k, a->a, mkConst(bv, a->a->w));
            if (isC(a) && b->k == K_ZExt) return a->val >> b->a->w ? mkConst(0, 1) : mkBin(k, mkConst(a->val, b->a->w), b->a);
            if (w <= 64 && !isC(a) && !cb && (isSum(a) || isSum(b))) if (Expr *r = cmpSums(k, a, b, w)) return r;
            break;
        case K_Ule:
            if (a == b) return mkConst(1, 1);
            if (isC(a) && a->val == 0) return mkConst(1, 1);
            if (cb && bv == m) return mkConst(1, 1);
            if (cb && bv == 0) return mkBin(K_Eq, a, b);
            if (w <= 64) { if (umax(a) <= umin(b)) return mkConst(1, 1); if (umin(a) > umax(b)) return mkConst(0, 1); }
            if (cb && iteOfConsts(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
            if (isC(a) && iteOfConsts(b)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
            if (cb) return mkBin(K_Ult, a, mkConst(bv + 1, w));
            if (isC(a)) return mkBin(K_Ult, mkConst(a->val - 1, w), b);
            if (w == 1) return mkBin(K_Or, mkNot(a), b);
            if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
            if (w <= 64 && !isC(a) && !cb && (isSum(a) || isSum(b))) if (Expr *r = cmpSums(k, a, b, w)) return r;
            break;
        case K_Slt: case K_Sle:
            if (a == b) return mkConst(k == K_Sle, 1);
            if (w <= 64) {
                uint64_t sb = 1ull << (w - 1);
                bool an = a->ko & sb, ap = a->kz & sb, bn = b->ko & sb, bp = b->kz & sb;
                if ((ap && bp) || (an && bn)) return mkBin(k == K_Slt ? K_Ult : K_Ule, a, b);
                if (an && bp) return mkConst(1, 1);
                if (ap && bn) return mkConst(0, 1);
            }
            if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
            if (cb && iteOfConsts(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
            if (isC(a) && iteOfConsts(b)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
            if (cb && a->k == K_SExt) {
                unsigned aw = a->a->w; i128 v = sext128(bv, w), lo = -((i128)1 << (aw - 1)), hi = ((i128)1 << (aw - 1)) - 1;
                if (v > hi) return mkConst(1, 1);
                if (v < lo) return mkConst(0, 1);
                return mkBin(k, a->a, mkConst(bv, aw));
            }
            if (isC(a) && b->k == K_SExt) {
                unsigned aw = b->a->w; i128 v = sext128(a->val, w), lo = -((i128)1 << (aw - 1)), hi = ((i128)1 << (aw - 1)) - 1;
                if (v > hi) return mkConst(0, 1);
                if (v < lo) return mkConst(1, 1);
                return mkBin(k, mkConst(a->val, aw), b->a);
            }
            if (k == K_Sle && cb && bv != (m >> 1)) return mkBin(K_Slt, a, mkConst(bv + 1, w));
            if (k == K_Sle && isC(a) && a->val != ((u128)1 << (w - 1))) return mkBin(K_Slt, mkConst(a->val - 1, w), b);
            if (k == K_Slt && cb && bv == 0) return mkExtract(a, w - 1, 1);
            break;
        default: break;
    }
    return intern(k, rw, a, b, nullptr, 0);
}

Expr *mkIte(Expr *c, Expr *t, Expr *e) {
    if (isC(c)) return c->val ? t : e;
    if (t == e) return t;
    if (t->w == 1) {
        if (isC(t) && isC(e)) return t->val ? c : mkNot(c);
        if (isTrue(t)) return mkBin(K_Or, c, e);
        if (isFalse(t)) return mkBin(K_And, mkNot(c), e);
        if (isTrue(e)) return mkBin(K_Or, mkNot(c), t);
        if (isFalse(e)) return mkBin(K_And, c, t);
    }
    if (c->k == K_Xor && isC(c->b)) { c = c->a; std::swap(t, e); } // strip negation
    if (t->k == K_Ite && t->a == c) t = t->b;
    if (e->k == K_Ite && e->a == c) e = e->c;
    if (t == e) return t;
    if (e->k == K_Ite && e->b == t) return mkIte(mkBin(K_Or, c, e->a), t, e->c);
    if (t->k == K_ZExt && e->k == K_ZExt && t->a->w == e->a->w) return mkZExt(mkIte(c, t->a, e->a), t->w);
    if (t->k == K_ZExt && isC(e) && t->w <= 64 && !((uint64_t)e->val >> t->a->w)) return mkZExt(mkIte(c, t->a, mkConst(e->val, t->a->w)), t->w);
    if (e->k == K_ZExt && isC(t) && t->w <= 64 && !((uint64_t)t->val >> e->a->w)) return mkZExt(mkIte(c, mkConst(t->val, e->a->w), e->a), t->w);
    if (isC(t) && isC(e) && t->w <= 64 && t->val + e->val == 1) return mkZExt(t->val ? c : mkNot(c), t->w);
    return intern(K_Ite, t->w, c, t, e, 0);
}

Expr *mkConcat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo) && w <= 128) return mkConst((hi->val << lo->w) | lo->val, w);
    if (hi->k == K_Extract && lo->k == K_Extract && hi->a == lo->a && (unsigned)hi->val == (unsigned)lo->val + lo->w)
        return mkExtract(hi->a, (unsigned)lo->val, w);
    if (isC(hi) && hi->val == 0) return mkZExt(lo, w);
    if (hi->k == K_Extract && (unsigned)hi->val >= lo->w && lo->k != K_Extract && lo->k != K_Sym && mkExtract(hi->a, (unsigned)hi->val - lo->w, lo->w) == lo) return mkExtract(hi->a, (unsigned)hi->val - lo->w, w); // the lower part was simplified further
    if (lo->k == K_Concat && hi->k == K_Extract && lo->a->k == K_Extract && lo->a->a == hi->a && (unsigned)hi->val == (unsigned)lo->a->val + lo->a->w)
        return mkConcat(mkConcat(hi, lo->a), lo->b);
    // the bytes of a sign extension put together again
    if (hi->k == K_SExt && hi->a->w == 1) { Expr *x = lo->k == K_SExt ? lo->a : lo; if (hi->a == mkExtract(x, x->w - 1, 1)) return mkSExt(x, w); }
    return intern(K_Concat, w, hi, lo, nullptr, 0);
}

Expr *mkExtract(Expr *e, unsigned off, unsigned w) {
    if (off == 0 && w == e->w) return e;
    if (off + w > e->w) { fprintf(stderr, "extract out of range\n"); abort(); }
    if (isC(e)) return mkConst(e->val >> off, w);
    if (e->w <= 64) { uint64_t m = mask64(w) << off; if (((e->kz | e->ko) & m) == m) return mkConst(e->ko >> off, w); }
    switch (e->k) {
        case K_Extract: return mkExtract(e->a, off + (unsigned)e->val, w);
        case K_Concat: {
            unsigned lw = e->b->w;
            if (off >= lw) return mkExtract(e->a, off - lw, w);
            if (off + w <= lw) return mkExtract(e->b, off, w);
            return mkConcat(mkExtract(e->a, 0, off + w - lw), mkExtract(e->b, off, lw - off));
        }
        case K_ZExt:
            if (off >= e->a->w) return mkConst(0, w);
            if (off + w <= e->a->w) return mkExtract(e->a, off, w);
            return mkZExt(mkExtract(e->a, off, e->a->w - off), w);
        case K_SExt:
            if (off + w <= e->a->w) return mkExtract(e->a, off, w);
            if (off >= e->a->w) { if (w == 1) return mkExtract(e->a, e->a->w - 1, 1); return mkSExt(mkExtract(e->a, e->a->w - 1, 1), w); }
            return mkSExt(mkExtract(e->a, off, e->a->w - off), w);
        case K_Ite:
            if (isC(e->b) || isC(e->c) || e->b->k == K_ZExt || e->c->k == K_ZExt || e->b->k == K_Concat || e->c->k == K_Concat)
                return mkIte(e->a, mkExtract(e->b, off, w), mkExtract(e->c, off, w));
            break;
        case K_And: case K_Or: case K_Xor:
            return mkBin(e->k, mkExtract(e->a, off, w), mkExtract(e->b, off, w));
        case K_Add: case K_Sub: case K_Mul:
            if (off == 0) return mkBin(e->k, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
            break;
        default: break;
    }
    return intern(K_Extract, w, e, nullptr, nullptr, off);
}
Expr *mkZExt(Expr *e, unsigned w) {
    if (e->w == w) return e;
    if (e->w > w) return mkExtract(e, 0, w);
    if (isC(e) && w <= 128) return mkConst(e->val, w);
    if (e->k == K_ZExt) return mkZExt(e->a, w);
    return intern(K_ZExt, w, e, nullptr, nullptr, 0);
}
Expr *mkSExt(Expr *e, unsigned w) {
    if (e->w == w) return e;
    if (isC(e) && w <= 128) return mkConst((u128)sext128(e->val, e->w), w);
    if (e->k == K_SExt) return mkSExt(e->a, w);
    if (e->w <= 64 && (e->kz >> (e->w - 1) & 1)) return mkZExt(e, w);
    if (e->k == K_ZExt && e->a->w < e->w) return mkZExt(e->a, w);
    return intern(K_SExt, w, e, nullptr, nullptr, 0);
}

// ---- floating point ------------------------------------------------------------------------------------------------
static double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 frD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 frF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

template<class T> static int64_t f2si(T x) { // x86 cvttsd2si semantics: out of range -> INT64_MIN
    if (!(x >= (T)-9223372036854775808.0 && x < (T)9223372036854775808.0)) return INT64_MIN;
    return (int64_t)x;
}
template<class T> static uint64_t f2ui(T x) {
    if (!(x > (T)-1.0 && x < (T)18446744073709551616.0)) return 0x8000000000000000ull;
    return (uint64_t)x;
}

u128 foldF(Kind k, u128 a, u128 b, unsigned w, unsigned rw, unsigned mode) {
    if (w == 64 && k != K_SIToF && k != K_UIToF) {
        double x = asD(a), y = asD(b);
        switch (k) {
            case K_FAdd: return frD(x + y); case K_FSub: return frD(x - y); case K_FMul: return frD(x * y); case K_FDiv: return frD(x / y);
            case K_FRem: return frD(fmod(x, y)); case K_FSqrt: return frD(sqrt(x));
            case K_FEq: return x == y; case K_FLt: return x < y; case K_FLe: return x <= y; case K_FIsNaN: return x != x;
            case K_FTrunc: return frF((float)x);
            case K_FToSI: return (u128)(rw == 64 ? (uint64_t)f2si(x) : (uint64_t)f2si(x)) & mask128(rw);
            case K_FToUI: return (u128)f2ui(x) & mask128(rw);
            case K_FRnd: return frD(mode == 0 ? floor(x) : mode == 1 ? ceil(x) : mode == 2 ? trunc(x) : mode == 3 ? nearbyint(x) : round(x));
            default: abort();
        }
    } else if (w == 32 && k != K_SIToF && k != K_UIToF) {
        float x = asF(a), y = asF(b);
        switch (k) {
            case K_FAdd: return frF(x + y); case K_FSub: return frF(x - y); case K_FMul: return frF(x * y); case K_FDiv: return frF(x / y);
            case K_FRem: return frF(fmodf(x, y)); case K_FSqrt: return frF(sqrtf(x));
            case K_FEq: return x == y; case K_FLt: return x < y; case K_FLe: return x <= y; case K_FIsNaN: return x != x;
            case K_FExt: return frD((double)x);
            case K_FToSI: return (u128)(uint64_t)f2si(x) & mask128(rw);
            case K_FToUI: return (u128)f2ui(x) & mask128(rw);
            case K_FRnd: return frF(mode == 0 ? floorf(x) : mode == 1 ? ceilf(x) : mode == 2 ? truncf(x) : mode == 3 ? nearbyintf(x) : roundf(x));
            default: abort();
        }
    }
    if (k == K_SIToF) { int64_t v = sext64((uint64_t)a, w); return rw == 64 ? frD((double)v) : frF((float)v); }
    if (k == K_UIToF) { uint64_t v = (uint64_t)a & mask64(w); return rw == 64 ? frD((double)v) : frF((float)v); }
    fprintf(stderr, "foldF: unsupported %s w=%u\n", kindName(k), w); abort();
}

// An expression is an "exact integer double" if it is SIToF(i) with |i| < 2^52, or a constant that is such an integer.
// Sums, differences and comparisons of those are exact, hence may be computed on integers.
static bool smallSigned(Expr *i) { // |i| < 2^52 provable
    if (i->w <= 52) return true;
    if (i->k == K_SExt && i->a->w <= 52) return true;
    if (i->w <= 64 && umax(i) < (1ull << 52)) return true;
    return false;
}
static Expr *asExactInt(Expr *e) { // 64-bit integer or null
    if (e->w != 64) return nullptr;
    if (e->k == K_SIToF && smallSigned(e->a)) return mkSExt(e->a, 64);
    if (e->k == K_UIToF && e->a->w <= 64 && umax(e->a) < (1ull << 52)) return mkZExt(e->a, 64);
    if (isC(e)) { double d = asD(e->val); if (d == (double)(int64_t)(std::fabs(d) < 4e15 ? d : 0.5) && std::fabs(d) < 4503599627370496.0 && !(d == 0 && std::signbit(d))) return mkConst((u128)(i128)(int64_t)d, 64); }
    if (e->k == K_Ite) { Expr *t = asExactInt(e->b), *f = t ? asExactInt(e->c) : nullptr; if (t && f) return mkIte(e->a, t, f); }
    return nullptr;
}

Expr *mkFBin(Kind k, Expr *a, Expr *b) {
    unsigned w = a->w, rw = (k >= K_FEq && k <= K_FLe) ? 1 : w;
    if (isC(a) && isC(b)) return mkConst(foldF(k, a->val, b->val, w, rw, 0), rw);
    if (w == 64 && (k == K_FAdd || k == K_FSub || k >= K_FEq)) {
        Expr *x = asExactInt(a), *y = x ? asExactInt(b) : nullptr;
        if (x && y) {
            if (k == K_FEq) return mkBin(K_Eq, x, y);
            if (k == K_FLt) return mkBin(K_Slt, x, y);
            if (k == K_FLe) return mkBin(K_Sle, x, y);
            Expr *r = mkBin(k == K_FAdd ? K_Add : K_Sub, x, y);
            if (k == K_FAdd ? smallSigned(r) : (umax(r) < (1ull << 52))) return mkFUn(K_SIToF, r, 64);
            // subtraction: |x|,|y| < 2^51 suffices for |x-y| < 2^52
            if (k == K_FSub && umax(x) < (1ull << 51) && umax(y) < (1ull << 51)) {
                return mkFUn(K_SIToF, mkExtract(r, 0, 52), 64);
            }
        }
    }
    if (w == 64 && k >= K_FEq && (isC(a) || isC(b))) { // an exact integer against a constant that is none
        bool ca = isC(a); Expr *x = asExactInt(ca ? b : a); double d = asD((ca ? a : b)->val);
        if (x) {
            if (std::isnan(d)) return mkConst(0, 1);
            if (std::fabs(d) >= 4503599627370496.0) return mkConst(k == K_FEq ? 0 : (d > 0) != ca, 1);
            double f = std::floor(d); Expr *fl = mkConst((u128)(i128)(int64_t)f, 64);
            if (f == d) { // -0.0
                if (k == K_FEq) return mkBin(K_Eq, x, fl);
                return ca ? mkBin(k == K_FLt ? K_Slt : K_Sle, fl, x) : mkBin(k == K_FLt ? K_Slt : K_Sle, x, fl);
            }
            if (k == K_FEq) return mkConst(0, 1);
            return ca ? mkBin(K_Slt, fl, x) : mkBin(K_Sle, x, fl); // floor(d) < x, x <= floor(d)
        }
    }
    if (w == 64 && k == K_FDiv && isC(b) && asD(b->val) == 1.0 && (a->k == K_SIToF || a->k == K_UIToF)) return a;
    if (w == 64 && k == K_FMul) {
        Expr *x = asExactInt(a), *y = x ? asExactInt(b) : nullptr;
        if (x && y && umax(x) < (1ull << 51) && umax(y) < (1ull << 51)) {
            u128 p = (u128)umax(x) * umax(y);
            if (p < ((u128)1 << 52)) return mkFUn(K_SIToF, mkBin(K_Mul, x, y), 64);
        }
    }
    if ((k == K_FAdd || k == K_FMul || k == K_FEq) && a->id > b->id) std::swap(a, b);
    return intern(k, rw, a, b, nullptr, 0);
}
Expr *mkFUn(Kind k, Expr *a, unsigned w, unsigned mode) {
    if (isC(a) && a->w <= 64) return mkConst(foldF(k, a->val, 0, a->w, w, mode), w);
    if (k == K_SIToF && a->k == K_SExt) a = a->a;
    if (k == K_FIsNaN && (a->k == K_SIToF || a->k == K_UIToF || asExactInt(a))) return mkConst(0, 1);
    if (k == K_FToSI && a->w == 64) { Expr *x = asExactInt(a); if (x) { return w == 64 ? x : (w < 64 ? mkExtract(x, 0, w) : mkSExt(x, w)); } }
    if (k == K_FRnd && a->w == 64 && asExactInt(a)) return a;
    if (k == K_FExt && a->k == K_SIToF && a->a->w <= 24) return mkFUn(K_SIToF, a->a, 64);
    return intern(k, w, a, nullptr, nullptr, mode);
}

// ---- evaluation ----------------------------------------------------------------------------------------------------
static uint32_t g_stamp = 0;
void bumpEval() { ++g_stamp; }
static u128 ev(Expr *e, const Model &m) {
    if (e->k == K_Const) return e->val;
    if (e->stamp == g_stamp) return e->memo;
    u128 r = 0;
    switch (e->k) {
        case K_Sym: r = (size_t)e->val < m.v.size() ? m.v[(size_t)e->val] : 0; break;
        case K_Ite: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
        case K_Concat: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
        case K_Extract: r = ev(e->a, m) >> (unsigned)e->val; break;
        case K_ZExt: r = ev(e->a, m); break;
        case K_SExt: r = (u128)sext128(ev(e->a, m), e->a->w); break;
        case K_FAdd: case K_FSub: case K_FMul: case K_FDiv: case K_FRem: case K_FEq: case K_FLt: case K_FLe:
            r = foldF(e->k, ev(e->a, m), ev(e->b, m), e->a->w, e->w, 0); break;
        case K_FSqrt: case K_FIsNaN: case K_FExt: case K_FTrunc: case K_FToSI: case K_FToUI: case K_SIToF: case K_UIToF: case K_FRnd:
            r = foldF(e->k, ev(e->a, m), 0, e->a->w, e->w, (unsigned)e->val); break;
        default: r = foldBin(e->k, ev(e->a, m), ev(e->b, m), e->a->w); break;
    }
    r &= mask128(e->w);
    e->stamp = g_stamp; e->memo = r;
    return r;
}
u128 evalExpr(Expr *e, const Model &m) { if (e->k == K_Const) return e->val; ++g_stamp; return ev(e, m); }

std::string exprStr(Expr *e, int d) {
    char buf[64];
    if (e->k == K_Const) { snprintf(buf, sizeof buf, "%llu:%u", (unsigned long long)e->val, e->w); return buf; }
    if (e->k == K_Sym) return g_syms[(size_t)e->val].name;
    if (d == 0) return "..";
    std::string s = std::string("(") + kindName(e->k);
    if (e->k == K_Extract) { snprintf(buf, sizeof buf, "[%u+%u]", (unsigned)e->val, e->w); s += buf; }
    if (e->a) s += " " + exprStr(e->a, d - 1);
    if (e->b) s += " " + exprStr(e->b, d - 1);
    if (e->c) s += " " + exprStr(e->c, d - 1);
    return s + ")";
}
