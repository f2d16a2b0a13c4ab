// Hash-consed bit-vector / IEEE expression DAG.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
    K_Const, K_Sym,
    K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem,
    K_And, K_Or, K_Xor, K_Shl, K_LShr, K_AShr,
    K_Eq, K_Ult, K_Ule, K_Slt, K_Sle,
    K_Ite, K_Concat, K_Extract, K_ZExt, K_SExt,
    // floating point; operands and results are IEEE bit patterns (w = 32 or 64), comparisons yield i1
    K_FAdd, K_FSub, K_FMul, K_FDiv, K_FRem, K_FSqrt,
    K_FEq, K_FLt, K_FLe, K_FIsNaN,
    K_FExt, K_FTrunc, K_FToSI, K_FToUI, K_SIToF, K_UIToF,
    K_FRnd, // round to integral; val = mode (0 floor 1 ceil 2 trunc 3 nearest-even 4 nearest-away)
};

struct SymSet { std::vector<uint32_t> v; uint32_t id; };

struct Expr {
    Kind k;
    uint16_t w;
    uint32_t id;
    uint32_t hash;
    Expr *a, *b, *c;
    u128 val;         // constant value / symbol index / extract offset
    uint64_t kz, ko;  // known zero / known one bits (only w <= 64)
    SymSet *syms;
    void *z3;         // memoized translation
    uint32_t stamp;   // evaluation memo
    u128 memo;
};

struct Symbol { std::string name; uint16_t w; Expr *e; };
extern std::vector<Symbol> g_syms;
extern std::vector<Expr*> g_exprs;

inline u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext64(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; unsigned s = 64 - w; return (int64_t)(v << s) >> s; }
inline i128 sext128(u128 v, unsigned w) { if (w >= 128) return (i128)v; unsigned s = 128 - w; return (i128)(v << s) >> s; }

Expr *mkConst(u128 v, unsigned w);
Expr *mkSym(const std::string &name, unsigned w);
Expr *mkBin(Kind k, Expr *a, Expr *b);     // arithmetic, bitwise, comparisons
Expr *mkIte(Expr *c, Expr *t, Expr *e);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *e, unsigned off, unsigned w);
Expr *mkZExt(Expr *e, unsigned w);
Expr *mkSExt(Expr *e, unsigned w);
Expr *mkNot(Expr *e);                      // bitwise complement
Expr *mkFBin(Kind k, Expr *a, Expr *b);
Expr *mkFUn(Kind k, Expr *a, unsigned w, unsigned mode = 0);
inline bool isC(const Expr *e) { return e->k == K_Const; }
inline bool isTrue(const Expr *e) { return e->k == K_Const && e->val == 1; }
inline bool isFalse(const Expr *e) { return e->k == K_Const && e->val == 0; }

struct Model { std::vector<uint64_t> v; };  // per symbol index
u128 evalExpr(Expr *e, const Model &m);
void bumpEval();
std::string exprStr(Expr *e, int depth = 6);
const char *kindName(Kind k);
u128 foldBin(Kind k, u128 a, u128 b, unsigned w);
u128 foldF(Kind k, u128 a, u128 b, unsigned w, unsigned rw, unsigned mode);
