#include <functional>
#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <unordered_map>
#include <unistd.h>

SolverStats g_ss;
std::string g_smt_dump; int g_smt_dump_max = 0;
unsigned g_rlimit = 40000000; double g_deadline = 0;
static Z3_context C;
static Z3_solver S;
static Z3_sort SFP32, SFP64; static Z3_ast RNE, RTZ, RTN, RTP, RNA;
static std::unordered_map<Expr*, Z3_ast> g_fp;
static bool g_uses_fp;

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void init() {
    Z3_config cfg = Z3_mk_config();
    C = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(C, errh);
    auto keep = [](Z3_ast a) { return a; };
    SFP32 = Z3_mk_fpa_sort_32(C); SFP64 = Z3_mk_fpa_sort_64(C);
    keep(Z3_sort_to_ast(C, SFP32)); keep(Z3_sort_to_ast(C, SFP64));
    RNE = keep(Z3_mk_fpa_rne(C)); RTZ = keep(Z3_mk_fpa_rtz(C)); RTN = keep(Z3_mk_fpa_rtn(C)); RTP = keep(Z3_mk_fpa_rtp(C)); RNA = keep(Z3_mk_fpa_rna(C));
}
static Z3_ast tr(Expr *e);          // bit-vector form (for w==1: Bool form)
static Z3_ast bv1(Z3_ast b) {
    static Z3_ast one, zero;
    if (!one) { Z3_sort s = Z3_mk_bv_sort(C, 1); one = Z3_mk_unsigned_int64(C, 1, s); zero = Z3_mk_unsigned_int64(C, 0, s); }
    return Z3_mk_ite(C, b, one, zero);
}
static Z3_ast trBV(Expr *e) { Z3_ast a = tr(e); return e->w == 1 ? bv1(a) : a; }
static Z3_ast asFP(Expr *e);
static bool isF(Kind k) { return (k >= K_FAdd && k <= K_FSqrt) || k == K_FExt || k == K_FTrunc || k == K_SIToF || k == K_UIToF || k == K_FRnd; }
static Z3_ast mkFP(Expr *e) {
    Z3_sort s = e->w == 32 ? SFP32 : SFP64;
    switch (e->k) {
        case K_FAdd: return Z3_mk_fpa_add(C, RNE, asFP(e->a), asFP(e->b));
        case K_FSub: return Z3_mk_fpa_sub(C, RNE, asFP(e->a), asFP(e->b));
        case K_FMul: return Z3_mk_fpa_mul(C, RNE, asFP(e->a), asFP(e->b));
        case K_FDiv: return Z3_mk_fpa_div(C, RNE, asFP(e->a), asFP(e->b));
        case K_FRem: return Z3_mk_fpa_rem(C, asFP(e->a), asFP(e->b));   // NB: IEEE remainder; the engine never builds symbolic frem
        case K_FSqrt: return Z3_mk_fpa_sqrt(C, RNE, asFP(e->a));
        case K_FExt: case K_FTrunc: return Z3_mk_fpa_to_fp_float(C, RNE, asFP(e->a), s);
        case K_SIToF: return Z3_mk_fpa_to_fp_signed(C, RNE, trBV(e->a), s);
        case K_UIToF: return Z3_mk_fpa_to_fp_unsigned(C, RNE, trBV(e->a), s);
        case K_FRnd: { Z3_ast rm = e->val == 0 ? RTN : e->val == 1 ? RTP : e->val == 2 ? RTZ : e->val == 3 ? RNE : RNA;
            return Z3_mk_fpa_round_to_integral(C, rm, asFP(e->a)); }
        default: return Z3_mk_fpa_to_fp_bv(C, trBV(e), s);
    }
}
static Z3_ast asFP(Expr *e) {
    auto it = g_fp.find(e);
    if (it != g_fp.end()) return it->second;
    Z3_ast a = mkFP(e);
    return g_fp[e] = a;
}
static Z3_ast mk(Expr *e) {
    unsigned w = e->w;
    auto B = [&](Expr *x) { return trBV(x); };
    if (isF(e->k)) return Z3_mk_fpa_to_ieee_bv(C, asFP(e));
    switch (e->k) {
        case K_Const: {
            if (w == 1) return e->val ? Z3_mk_true(C) : Z3_mk_false(C);
            if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)e->val, Z3_mk_bv_sort(C, w));
            std::string s; u128 v = e->val; do { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } while (v);
            return Z3_mk_numeral(C, s.c_str(), Z3_mk_bv_sort(C, w)); }
        case K_Sym: { char nm[32]; snprintf(nm, sizeof nm, "s%u", (unsigned)e->val); Z3_symbol sy = Z3_mk_string_symbol(C, nm);
            if (w == 1) return Z3_mk_const(C, sy, Z3_mk_bool_sort(C));
            return Z3_mk_const(C, sy, Z3_mk_bv_sort(C, w)); }
        case K_And: if (w == 1) { Z3_ast x[2] = { tr(e->a), tr(e->b) }; return Z3_mk_and(C, 2, x); } return Z3_mk_bvand(C, B(e->a), B(e->b));
        case K_Or: if (w == 1) { Z3_ast x[2] = { tr(e->a), tr(e->b) }; return Z3_mk_or(C, 2, x); } return Z3_mk_bvor(C, B(e->a), B(e->b));
        case K_Xor:
            if (w == 1) { if (isC(e->b)) return e->b->val ? Z3_mk_not(C, tr(e->a)) : tr(e->a); return Z3_mk_xor(C, tr(e->a), tr(e->b)); }
            if (isC(e->b) && e->b->val == mask128(w)) return Z3_mk_bvnot(C, B(e->a));
            return Z3_mk_bvxor(C, B(e->a), B(e->b));
        case K_Ite: return Z3_mk_ite(C, tr(e->a), tr(e->b), tr(e->c));
        case K_Eq: return Z3_mk_eq(C, tr(e->a), tr(e->b));
        case K_Ult: return Z3_mk_bvult(C, B(e->a), B(e->b));
        case K_Ule: return Z3_mk_bvule(C, B(e->a), B(e->b));
        case K_Slt: return Z3_mk_bvslt(C, B(e->a), B(e->b));
        case K_Sle: return Z3_mk_bvsle(C, B(e->a), B(e->b));
        default: break;
    }
    if (e->k == K_FEq) return Z3_mk_fpa_eq(C, asFP(e->a), asFP(e->b));
    if (e->k == K_FLt) return Z3_mk_fpa_lt(C, asFP(e->a), asFP(e->b));
    if (e->k == K_FLe) return Z3_mk_fpa_leq(C, asFP(e->a), asFP(e->b));
    if (e->k == K_FIsNaN) return Z3_mk_fpa_is_nan(C, asFP(e->a));
    Z3_ast r = nullptr;
    switch (e->k) {
        case K_Add: r = Z3_mk_bvadd(C, B(e->a), B(e->b)); break;
        case K_Sub: r = Z3_mk_bvsub(C, B(e->a), B(e->b)); break;
        case K_Mul: r = Z3_mk_bvmul(C, B(e->a), B(e->b)); break;
        case K_UDiv: r = Z3_mk_bvudiv(C, B(e->a), B(e->b)); break;
        case K_SDiv: r = Z3_mk_bvsdiv(C, B(e->a), B(e->b)); break;
        case K_URem: r = Z3_mk_bvurem(C, B(e->a), B(e->b)); break;
        case K_SRem: r = Z3_mk_bvsrem(C, B(e->a), B(e->b)); break;
        case K_Shl: r = Z3_mk_bvshl(C, B(e->a), B(e->b)); break;
        case K_LShr: r = Z3_mk_bvlshr(C, B(e->a), B(e->b)); break;
        case K_AShr: r = Z3_mk_bvashr(C, B(e->a), B(e->b)); break;
        case K_Concat: r = Z3_mk_concat(C, B(e->a), B(e->b)); break;
        case K_Extract: r = Z3_mk_extract(C, (unsigned)e->val + w - 1, (unsigned)e->val, B(e->a)); break;
        case K_ZExt: r = Z3_mk_zero_ext(C, w - e->a->w, B(e->a)); break;
        case K_SExt: r = Z3_mk_sign_ext(C, w - e->a->w, B(e->a)); break;
        case K_FToSI: r = Z3_mk_fpa_to_sbv(C, RTZ, asFP(e->a), w); break;
        case K_FToUI: r = Z3_mk_fpa_to_ubv(C, RTZ, asFP(e->a), w); break;
        default: fprintf(stderr, "solver: cannot translate %s\n", kindName(e->k)); abort();
    }
    if (w == 1) { static Z3_ast one; if (!one) { one = Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)); } r = Z3_mk_eq(C, r, one); }
    return r;
}
static Z3_ast tr(Expr *e) {
    if (e->z3) return (Z3_ast)e->z3;
    // iterative post-order to bound recursion depth
    std::vector<std::pair<Expr*, int>> st{{e, 0}};
    while (!st.empty()) {
        auto &[x, i] = st.back();
        if (x->z3) { st.pop_back(); continue; }
        Expr *ch[3] = { x->a, x->b, x->c };
        if (i < 3) { Expr *c = ch[i++]; if (c && !c->z3) st.push_back({c, 0}); continue; }
        if (isF(x->k) || (x->k >= K_FEq && x->k <= K_FIsNaN)) g_uses_fp = true;
        Z3_ast a = mk(x); x->z3 = a; st.pop_back();
    }
    return (Z3_ast)e->z3;
}
static bool usesFP(Expr *e, std::unordered_map<Expr*, bool> &memo) {
    if (!e) return false;
    if (e->k >= K_FAdd) return true;
    if (e->k <= K_Sym) return false;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    bool r = usesFP(e->a, memo) || usesFP(e->b, memo) || usesFP(e->c, memo);
    return memo[e] = r;
}
static std::unordered_map<Expr*, bool> g_fpmemo;

struct VH { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
struct CEnt { Sat r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<std::vector<uint32_t>, CEnt, VH> g_cache;
static std::deque<Model> g_recent;

Sat solve(const std::vector<Expr*> &cs_, Model &m) {
    if (!C) init();
    std::vector<Expr*> cs;
    for (auto e : cs_) { if (isFalse(e)) return UNSAT; if (!isTrue(e)) cs.push_back(e); }
    if (cs.empty()) return SAT;
    std::sort(cs.begin(), cs.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::vector<uint32_t> key; for (auto e : cs) key.push_back(e->id);
    auto it = g_cache.find(key);
    auto apply = [&](const CEnt &c) { for (auto &p : c.m) { if (m.v.size() <= p.first) m.v.resize(p.first + 1); m.v[p.first] = p.second; } };
    if (it != g_cache.end()) { g_ss.cache_hits++; if (it->second.r == SAT) apply(it->second); return it->second.r; }
    std::vector<uint32_t> syms;
    for (auto e : cs) syms.insert(syms.end(), e->syms->v.begin(), e->syms->v.end());
    std::sort(syms.begin(), syms.end()); syms.erase(std::unique(syms.begin(), syms.end()), syms.end());
    for (auto &rm : g_recent) {
        bool ok = true;
        bumpEval();
        for (auto e : cs) if (!evalExpr(e, rm)) { ok = false; break; }
        if (ok) {
            g_ss.model_hits++;
            CEnt c{SAT, {}}; for (auto s : syms) c.m.push_back({s, s < rm.v.size() ? rm.v[s] : 0});
            apply(c); g_cache.emplace(std::move(key), std::move(c)); return SAT;
        }
    }
    auto t0 = std::chrono::steady_clock::now();
    bool fp = false; for (auto e : cs) fp |= usesFP(e, g_fpmemo);
    static Z3_solver sBV, sFP;
    if (!sBV) {
        auto mk = [&](const char *tac) { Z3_tactic t = Z3_mk_tactic(C, tac); Z3_tactic_inc_ref(C, t); Z3_solver s = Z3_mk_solver_from_tactic(C, t); Z3_solver_inc_ref(C, s); return s; };
        sBV = mk("qfbv"); sFP = mk("qffpbv");
    }
    S = fp ? sFP : sBV;
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), g_rlimit);
    double left = g_deadline > 0 ? g_deadline - std::chrono::duration<double>(t0.time_since_epoch()).count() : 1e6;
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), (unsigned)(1000 * std::max(0.5, std::min(60.0, left + 1))));
    Z3_solver_reset(C, S);
    Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p);
    for (auto e : cs) Z3_solver_assert(C, S, tr(e));
    Z3_lbool r = Z3_solver_check(C, S);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.z3_calls++; g_ss.z3_time += dt; if (dt > g_ss.max_query) g_ss.max_query = dt;
    if (r == Z3_L_UNDEF && getenv("SX_DUMP_TERMS")) for (auto e : cs) { std::function<void(Expr*,int)> pr = [&](Expr *x, int d) { if (!x || d > 9) return; fprintf(stderr, "(%d:%d#%d", (int)x->k, (int)x->w, (int)x->id); if (isC(x)) fprintf(stderr, "=%llx", (unsigned long long)x->val); pr(x->a, d + 1); pr(x->b, d + 1); pr(x->c, d + 1); fprintf(stderr, ")"); }; pr(e, 0); fprintf(stderr, "\n"); }
    if (r == Z3_L_UNDEF && getenv("SX_DUMP_UNKNOWN")) if (FILE *f = fopen(getenv("SX_DUMP_UNKNOWN"), "w")) { fprintf(f, "(set-logic %s)\n%s\n(check-sat)\n", fp ? "QF_BVFP" : "QF_BV", Z3_solver_to_string(C, S)); fclose(f); }
    if (g_smt_dump_max > 0 && r != Z3_L_UNDEF && (g_ss.z3_calls % 37) == 1) {
        g_smt_dump_max--;
        char fn[512]; snprintf(fn, sizeof fn, "%s/q%d_%llu.%s.smt2", g_smt_dump.c_str(), (int)getpid(), (unsigned long long)g_ss.z3_calls, r == Z3_L_TRUE ? "sat" : "unsat");
        if (FILE *f = fopen(fn, "w")) { fprintf(f, "(set-logic %s)\n%s\n(check-sat)\n", fp ? "QF_BVFP" : "QF_BV", Z3_solver_to_string(C, S)); fclose(f); }
    }
    if (r == Z3_L_UNDEF) { g_ss.unknown++; return UNKNOWN; }
    CEnt c{r == Z3_L_TRUE ? SAT : UNSAT, {}};
    if (r == Z3_L_TRUE) {
        g_ss.sat++;
        Z3_model zm = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, zm);
        for (auto s : syms) {
            Expr *se = g_syms[s].e; Z3_ast v; uint64_t x = 0;
            if (Z3_model_eval(C, zm, tr(se), true, &v)) {
                if (se->w == 1) x = Z3_get_bool_value(C, v) == Z3_L_TRUE;
                else Z3_get_numeral_uint64(C, v, &x);
            }
            c.m.push_back({s, x});
        }
        Z3_model_dec_ref(C, zm);
        apply(c);
        // sanity: the model must satisfy the query under the engine's own evaluator
        Model chk; for (auto &pr : c.m) { if (chk.v.size() <= pr.first) chk.v.resize(pr.first + 1); chk.v[pr.first] = pr.second; }
        for (auto e : cs) if (!evalExpr(e, chk)) {
            if (!fp) { fprintf(stderr, "solver: model does not satisfy %s\n", exprStr(e).c_str()); abort(); }
            g_ss.unknown++; return UNKNOWN;
        }
        g_recent.push_front(chk); if (g_recent.size() > 24) g_recent.pop_back();
    } else g_ss.unsat++;
    Sat res = c.r;
    g_cache.emplace(std::move(key), std::move(c));
    return res;
}
