// Differential self-test of the expression simplifier: random DAGs are built through the mk* constructors while the
// unsimplified meaning is tracked by direct evaluation; both must agree under random models.
#include "expr.h"
#include <cstdio>
#include <cstdlib>
#include <random>
#include <cmath>
int main(int argc, char **argv) {
    std::mt19937_64 R(argc > 1 ? atoi(argv[1]) : 1); int rounds = argc > 2 ? atoi(argv[2]) : 3000; const int NM = 6; long checks = 0;
    const unsigned W[] = {1, 8, 16, 32, 64, 128, 7, 33, 53};
    std::vector<Expr*> syms; for (unsigned w : W) if (w <= 64) for (int i = 0; i < 3; i++) syms.push_back(mkSym("s" + std::to_string(w) + "_" + std::to_string(i), w));
    auto special = [&](unsigned w) -> u128 { switch (R() % 8) { case 0: return 0; case 1: return 1; case 2: return mask128(w); case 3: return (u128)1 << (w - 1); case 4: return R() % 16; case 5: return mask128(w) >> 1; case 6: return ((u128)1 << (R() % w)) - (R() & 1); default: return ((u128)R() << 64) | R(); } };
    for (int r = 0; r < rounds; r++) {
        std::vector<Model> ms(NM); for (auto &m : ms) for (auto s : syms) m.v.push_back((uint64_t)special(s->w) & mask64(s->w));
        struct N { Expr *e; u128 v[NM]; }; std::vector<N> pool;
        for (unsigned i = 0; i < syms.size(); i++) { N n{syms[i]}; for (int j = 0; j < NM; j++) n.v[j] = ms[j].v[i]; pool.push_back(n); }
        auto pickW = [&](unsigned w) -> N { if (R() % 4 == 0) { u128 c = special(w) & mask128(w); N n{mkConst(c, w)}; for (auto &x : n.v) x = c; return n; } for (int t = 0; t < 60; t++) { N &n = pool[pool.size() - 1 - (t < 30 ? R() % std::min<size_t>(pool.size(), 25) : R() % pool.size())]; if (n.e->w == w) return n; } u128 c = special(w) & mask128(w); N n{mkConst(c, w)}; for (auto &x : n.v) x = c; return n; };
        for (int step = 0; step < 60; step++) {
            N n{}; unsigned w = W[R() % 9]; const char *what = "";
            switch (R() % 11) {
                case 0: case 1: case 2: case 3: case 4: { Kind k = Kind(K_Add + R() % (K_Sle - K_Add + 1)); N a = pickW(w), b = pickW(w); n.e = mkBin(k, a.e, b.e); for (int j = 0; j < NM; j++) n.v[j] = foldBin(k, a.v[j], b.v[j], w) & mask128(n.e->w); what = kindName(k); break; }
                case 5: { N c = pickW(1), a = pickW(w), b = pickW(w); n.e = mkIte(c.e, a.e, b.e); for (int j = 0; j < NM; j++) n.v[j] = c.v[j] ? a.v[j] : b.v[j]; what = "ite"; break; }
                case 6: { unsigned w2 = W[R() % 9]; if (w2 > w) std::swap(w, w2); N a = pickW(w2); bool sg = R() & 1; n.e = sg ? mkSExt(a.e, w) : mkZExt(a.e, w); for (int j = 0; j < NM; j++) n.v[j] = (sg ? (u128)sext128(a.v[j], w2) : a.v[j]) & mask128(w); what = sg ? "sext" : "zext"; break; }
                case 7: { N a = pickW(w); unsigned ww = 1 + R() % w, off = R() % (w - ww + 1); n.e = mkExtract(a.e, off, ww); for (int j = 0; j < NM; j++) n.v[j] = (a.v[j] >> off) & mask128(ww); what = "extract"; break; }
                case 8: { unsigned w2 = W[R() % 9]; if (w + w2 > 128) continue; N a = pickW(w), b = pickW(w2); n.e = mkConcat(a.e, b.e); for (int j = 0; j < NM; j++) n.v[j] = (a.v[j] << w2) | b.v[j]; what = "concat"; break; }
                case 10: { // comparisons of sums
                    unsigned sw = (unsigned[]){16, 32, 64}[R() % 3]; std::vector<N> ts; for (int i = 0; i < 4; i++) { N q = pickW(R() & 1 ? 8 : 7); q.e = mkZExt(q.e, sw); ts.push_back(q); }
                    auto sum = [&]() { N r{}; int n = 1 + R() % 4; for (int i = 0; i < n; i++) { N t = ts[R() % 4]; if (R() % 6 == 0) { u128 c = R() % 3 ? R() % 300 : mask128(sw) - R() % 300; t.e = mkConst(c & mask128(sw), sw); for (auto &x : t.v) x = c & mask128(sw); } if (!i) { r = t; continue; } bool nar = R() % 4 == 0 && sw > 16; if (nar) { r.e = mkZExt(mkBin(K_Add, mkExtract(r.e, 0, 16), mkExtract(t.e, 0, 16)), sw); for (int j = 0; j < NM; j++) r.v[j] = (r.v[j] + t.v[j]) & 0xffff; } else { r.e = mkBin(K_Add, r.e, t.e); for (int j = 0; j < NM; j++) r.v[j] = (r.v[j] + t.v[j]) & mask128(sw); } } return r; };
                    N a = sum(), b = sum(); Kind k = (Kind[]){K_Eq, K_Ult, K_Ule, K_Slt, K_Sle}[R() % 5]; n.e = mkBin(k, a.e, b.e); for (int j = 0; j < NM; j++) n.v[j] = foldBin(k, a.v[j], b.v[j], sw); what = "sums"; break; }
                case 9: { // floating point over exact integers and raw patterns
                    bool raw = R() % 3 == 0; auto mk = [&]() { N q{}; if (raw) return pickW(64); unsigned iw = (unsigned[]){8, 16, 32, 64, 53}[R() % 5]; N i = pickW(iw); bool sg = R() & 1; q.e = mkFUn(sg ? K_SIToF : K_UIToF, i.e, 64); for (int j = 0; j < NM; j++) q.v[j] = foldF(sg ? K_SIToF : K_UIToF, i.v[j], 0, iw, 64, 0); return q; };
                    N a = mk(), b = mk(); if (R() % 3 == 0) { static const double sp[] = {0.0, -0.0, 0.5, -0.5, 1e300, -1e300, 4503599627370496.0, -4503599627370496.0, 2.25, -3.75, 1.0 / 0.0, -1.0 / 0.0, 255.5}; double d = sp[R() % 13]; u128 c = 0; memcpy(&c, &d, 8); N q{mkConst(c, 64)}; for (auto &x : q.v) x = c; (R() & 1 ? a : b) = q; } Kind k = (Kind[]){K_FAdd, K_FSub, K_FMul, K_FDiv, K_FEq, K_FLt, K_FLe}[R() % 7]; n.e = mkFBin(k, a.e, b.e); bool nan = false;
                    for (int j = 0; j < NM; j++) { n.v[j] = foldF(k, a.v[j], b.v[j], 64, n.e->w, 0); uint64_t x = n.v[j]; double d; memcpy(&d, &x, 8); if (n.e->w == 64 && d != d) nan = true; }
                    if (nan) continue; what = kindName(k); break; }
            }
            for (int j = 0; j < NM; j++) { checks++; u128 g = evalExpr(n.e, ms[j]); if (g != n.v[j]) { printf("MISMATCH %s w=%u: simplified %llx%016llx expected %llx%016llx  %s\n", what, n.e->w, (unsigned long long)(g >> 64), (unsigned long long)g, (unsigned long long)(n.v[j] >> 64), (unsigned long long)n.v[j], exprStr(n.e, 5).c_str()); return 1; } 
                if (n.e->w <= 64) { uint64_t v = n.v[j]; if ((v & n.e->kz) || (~v & n.e->ko)) { printf("KNOWNBITS %s w=%u v=%llx kz=%llx ko=%llx %s\n", what, n.e->w, (unsigned long long)v, (unsigned long long)n.e->kz, (unsigned long long)n.e->ko, exprStr(n.e, 5).c_str()); return 1; } } }
            pool.push_back(n);
        }
    }
    printf("simplifier self-test: %ld comparisons agree\n", checks); return 0;
}
