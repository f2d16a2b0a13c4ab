static Expr *popcntE(Expr *e) {
    unsigned w = e->w; Expr *r = mkConst(0, w);
    if (w > 64) { for (unsigned i = 0; i < w; i++) r = mkBin(K_Add, r, mkZExt(mkExtract(e, i, 1), w)); return r; }
    // sum only the bits that can be set
    std::vector<Expr*> bits; u64 base = 0;
    for (unsigned i = 0; i < w; i++) { if (e->ko >> i & 1) base++; else if (!(e->kz >> i & 1)) bits.push_back(mkExtract(e, i, 1)); }
    std::vector<Expr*> cur; for (auto b : bits) cur.push_back(mkZExt(b, 8));
    while (cur.size() > 1) { std::vector<Expr*> nx; for (size_t i = 0; i + 1 < cur.size(); i += 2) nx.push_back(mkBin(K_Add, cur[i], cur[i + 1])); if (cur.size() & 1) nx.push_back(cur.back()); cur.swap(nx); }
    Expr *t = cur.empty() ? mkConst(0, 8) : cur[0];
    if (base) t = mkBin(K_Add, t, mkConst(base, 8));
    return w > 8 ? mkZExt(t, w) : w < 8 ? mkExtract(t, 0, w) : t;
}
static Expr *ctzE(Expr *e, bool lead) {
    unsigned w = e->w; Expr *r = mkConst(w, w);
    for (unsigned k = 0; k < w; k++) { unsigned i = lead ? k : w - 1 - k; if (w <= 64 && (e->kz >> i & 1)) continue; u64 v = lead ? w - 1 - i : i; r = mkIte(mkExtract(e, i, 1), mkConst(v, w), r); }
    return r;
}
static Expr *pextE(Expr *s, Expr *m, unsigned w) {
    Expr *r = mkConst(0, w);
    if (isC(m)) { std::vector<Expr*> b; for (unsigned i = 0; i < w; i++) if ((u64)m->val >> i & 1) b.push_back(mkExtract(s, i, 1)); if (b.empty()) return r; Expr *e = b[0]; for (size_t i = 1; i < b.size(); i++) e = mkConcat(b[i], e); return mkZExt(e, w); }
    Expr *k = mkConst(0, w);
    for (unsigned i = 0; i < w; i++) { if (m->kz >> i & 1) continue; Expr *mi = mkExtract(m, i, 1), *bit = mkZExt(mkBin(K_And, mkExtract(s, i, 1), mi), w); r = mkBin(K_Or, r, mkBin(K_Shl, bit, k)); k = mkBin(K_Add, k, mkZExt(mi, w)); }
    return r;
}
static Expr *pdepE(Expr *s, Expr *m, unsigned w) {
    if (isC(m)) { Expr *e = nullptr; unsigned k = 0; for (unsigned i = 0; i < w; i++) { Expr *b = ((u64)m->val >> i & 1) ? mkExtract(s, k++, 1) : mkConst(0, 1); e = e ? mkConcat(b, e) : b; } return e; }
    Expr *e = nullptr, *k = mkConst(0, w);
    for (unsigned i = 0; i < w; i++) { Expr *b; if (m->kz >> i & 1) b = mkConst(0, 1); else { Expr *mi = mkExtract(m, i, 1); b = mkBin(K_And, mi, mkExtract(mkBin(K_LShr, s, k), 0, 1)); k = mkBin(K_Add, k, mkZExt(mi, w)); } e = e ? mkConcat(b, e) : b; }
    return e;
}
static double fun1(unsigned id, double x) {
    switch (id) { case Intrinsic::exp: return exp(x); case Intrinsic::exp2: return exp2(x); case Intrinsic::log: return log(x); case Intrinsic::log2: return log2(x); case Intrinsic::log10: return log10(x); case Intrinsic::sin: return sin(x); case Intrinsic::cos: return cos(x); default: return NAN; }
}
void Exec::intrinsic(State &s, const Ins &x) {
    const V *K = F->f->K.data();
    auto A = [&](unsigned i, unsigned lane = 0) -> V { int o = F->f->extra[x.x + i]; return o >= 0 ? R[o + lane] : K[~o + lane]; };
    const CallBase &C = cast<CallBase>(*x.I); unsigned w = x.w;
    V *D = R + x.dst;
    switch (x.sub) {
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: { u64 d = conc(s, A(0)), a = conc(s, A(1)), n = conc(s, A(2)); copyMem(s, d, a, n); return; }
        case Intrinsic::memset: case Intrinsic::memset_inline: { u64 d = conc(s, A(0)), n = conc(s, A(2)); setMem(s, d, A(1), n); return; }
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
            unsigned p = x.sub == Intrinsic::umin ? CmpInst::ICMP_ULT : x.sub == Intrinsic::umax ? CmpInst::ICMP_UGT : x.sub == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
            for (unsigned i = 0; i < x.n; i++) { V a = A(0, i), b = A(1, i), c = icmp(p, w, a, b); D[i] = c.e ? selV(c.e, a, b, w) : c.c ? a : b; } return; }
        case Intrinsic::abs: for (unsigned i = 0; i < x.n; i++) { V a = A(0, i), c = icmp(CmpInst::ICMP_SLT, w, a, cV(0)), n = binop(Instruction::Sub, w, cV(0), a); D[i] = c.e ? selV(c.e, n, a, w) : c.c ? n : a; } return;
        case Intrinsic::ctpop: for (unsigned i = 0; i < x.n; i++) { V a = A(0, i); D[i] = a.e ? eV(popcntE(a.e)) : cV(__builtin_popcountll(a.c)); } return;
        case Intrinsic::ctlz: case Intrinsic::cttz: { bool lead = x.sub == Intrinsic::ctlz; bool zp = A(1).c;
            for (unsigned i = 0; i < x.n; i++) { V a = A(0, i);
                if (zp && !a.e && a.c == 0) { D[i] = cV(w); continue; }   // poison; a caller that uses it is caught by its effect
                D[i] = a.e ? eV(ctzE(a.e, lead)) : cV(a.c == 0 ? w : lead ? __builtin_clzll(a.c) - (64 - w) : __builtin_ctzll(a.c)); } return; }
        case Intrinsic::bswap: { V a = A(0); if (!a.e) { D[0] = cV(__builtin_bswap64(a.c) >> (64 - w)); return; } Expr *e = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr *b = mkExtract(a.e, i * 8, 8); e = e ? mkConcat(e, b) : b; } D[0] = eV(e); return; }
        case Intrinsic::bitreverse: { Expr *a = toE(A(0), w), *e = nullptr; for (unsigned i = 0; i < w; i++) { Expr *b = mkExtract(a, i, 1); e = e ? mkConcat(e, b) : b; } D[0] = eV(e); return; }
        case Intrinsic::fshl: case Intrinsic::fshr: for (unsigned i = 0; i < x.n; i++) { bool l = x.sub == Intrinsic::fshl; Expr *a = toE(A(0, i), w), *b = toE(A(1, i), w), *c = mkBin(K_URem, toE(A(2, i), w), mkConst(w, w)); Expr *z = mkBin(K_Eq, c, mkConst(0, w)), *inv = mkBin(K_Sub, mkConst(w, w), c);
            Expr *r = l ? mkBin(K_Or, mkBin(K_Shl, a, c), mkBin(K_LShr, b, inv)) : mkBin(K_Or, mkBin(K_Shl, a, inv), mkBin(K_LShr, b, c)); D[i] = eV(mkIte(z, l ? a : b, r)); } return;
        case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
            bool sg = x.sub == Intrinsic::sadd_with_overflow || x.sub == Intrinsic::ssub_with_overflow || x.sub == Intrinsic::smul_with_overflow;
            Kind k = x.sub == Intrinsic::sadd_with_overflow || x.sub == Intrinsic::uadd_with_overflow ? K_Add : x.sub == Intrinsic::ssub_with_overflow || x.sub == Intrinsic::usub_with_overflow ? K_Sub : K_Mul;
            unsigned ww = k == K_Mul ? 2 * w : w + 1; Expr *a = toE(A(0), w), *b = toE(A(1), w), *r = mkBin(k, a, b), *ov;
            Expr *wa = sg ? mkSExt(a, ww) : mkZExt(a, ww), *wb = sg ? mkSExt(b, ww) : mkZExt(b, ww), *wr_ = mkBin(k, wa, wb);
            ov = mkNot(mkBin(K_Eq, wr_, sg ? mkSExt(r, ww) : mkZExt(r, ww))); D[0] = eV(r); D[1] = eV(ov); return; }
        case Intrinsic::uadd_sat: { Expr *a = toE(A(0), w), *b = toE(A(1), w), *r = mkBin(K_Add, a, b); D[0] = eV(mkIte(mkBin(K_Ult, r, a), mkConst(~(u128)0, w), r)); return; }
        case Intrinsic::usub_sat: { Expr *a = toE(A(0), w), *b = toE(A(1), w); D[0] = eV(mkIte(mkBin(K_Ult, a, b), mkConst(0, w), mkBin(K_Sub, a, b))); return; }
        case Intrinsic::trap: case Intrinsic::ubsantrap: fail(s, "trap", "llvm.trap reached");
        case Intrinsic::eh_typeid_for: D[0] = cV((u64)typeId(A(0).c)); return;
        case Intrinsic::stacksave: D[0] = cV(0); return;
        case Intrinsic::objectsize: D[0] = cV(A(1).c ? 0 : mask64(w)); return;
        case Intrinsic::is_constant: D[0] = cV(0); return;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: D[0] = A(0); return;
        case Intrinsic::ptrmask: D[0] = binop(Instruction::And, w, A(0), A(1)); return;
        case Intrinsic::fabs: for (unsigned i = 0; i < x.n; i++) { V a = A(0, i); D[i] = w == 80 ? lb(fabsl(bl(a.e))) : binop(Instruction::And, w, a, cV(mask64(w - 1))); } return;
        case Intrinsic::copysign: { D[0] = binop(Instruction::Or, w, binop(Instruction::And, w, A(0), cV(mask64(w - 1))), binop(Instruction::And, w, A(1), cV(1ull << (w - 1)))); return; }
        case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: case Intrinsic::round: {
            unsigned md = x.sub == Intrinsic::floor ? 0 : x.sub == Intrinsic::ceil ? 1 : x.sub == Intrinsic::trunc ? 2 : x.sub == Intrinsic::round ? 4 : 3;
            V a = A(0); if (w == 80) { long double l = bl(a.e); D[0] = lb(md == 0 ? floorl(l) : md == 1 ? ceill(l) : md == 2 ? truncl(l) : md == 4 ? roundl(l) : rintl(l)); return; }
            D[0] = eV(mkFUn(K_FRnd, toE(a, w), w, md)); return; }
        case Intrinsic::sqrt: { V a = A(0); if (!a.e) { D[0] = w == 64 ? cV(db(sqrt(bd(a.c)))) : cV(fb(sqrtf(bf(a.c)))); return; } D[0] = eV(mkFUn(K_FSqrt, a.e, w)); return; }
        case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::sin: case Intrinsic::cos: { u64 a = conc(s, A(0)); D[0] = w == 64 ? cV(db(fun1(x.sub, bd(a)))) : cV(fb((float)fun1(x.sub, bf(a)))); return; }
        case Intrinsic::pow: { u64 a = conc(s, A(0)), b = conc(s, A(1)); D[0] = w == 64 ? cV(db(pow(bd(a), bd(b)))) : cV(fb(powf(bf(a), bf(b)))); return; }
        case Intrinsic::powi: { u64 a = conc(s, A(0)), b = conc(s, A(1)); D[0] = cV(db(__builtin_powi(bd(a), (int)b))); return; }
        case Intrinsic::fma: case Intrinsic::fmuladd: { if (x.sub == Intrinsic::fma) {
            V va = A(0), vb = A(1), vc = A(2); u64 sign = 1ull << (w - 1);   // zero times an integer (never infinite) plus anything but minus zero
            if (!va.e && !(va.c & ~sign) && vb.e && (vb.e->k == K_SIToF || vb.e->k == K_UIToF) && !vc.e && vc.c != sign) { D[0] = vc; return; }
            u64 a = conc(s, A(0)), b = conc(s, A(1)), c = conc(s, A(2)); D[0] = w == 64 ? cV(db(fma(bd(a), bd(b), bd(c)))) : cV(fb(fmaf(bf(a), bf(b), bf(c)))); return; }
            D[0] = fbin(Instruction::FAdd, w, fbin(Instruction::FMul, w, A(0), A(1)), A(2)); return; }
        case Intrinsic::maxnum: case Intrinsic::minnum: { V a = A(0), b = A(1), c = fcmp(x.sub == Intrinsic::maxnum ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, w, a, b), nb = fcmp(CmpInst::FCMP_UNO, w, b, b); V c2 = binop(Instruction::Or, 1, c, nb); D[0] = c2.e ? selV(c2.e, a, b, w) : c2.c ? a : b; return; }
        case Intrinsic::is_fpclass: { u64 a = conc(s, A(0)), m = A(1).c; double d = w == 64 ? bd(a) : bf(a); int cl = std::fpclassify(d); bool neg = std::signbit(d); u64 bit = cl == FP_NAN ? 3 : cl == FP_INFINITE ? (neg ? 4 : 0x200) : cl == FP_NORMAL ? (neg ? 8 : 0x100) : cl == FP_SUBNORMAL ? (neg ? 16 : 0x80) : (neg ? 32 : 0x40); D[0] = cV((bit & m) != 0); return; }
        case Intrinsic::x86_bmi_pext_32: case Intrinsic::x86_bmi_pext_64: D[0] = eV(pextE(toE(A(0), w), toE(A(1), w), w)); return;
        case Intrinsic::x86_bmi_pdep_32: case Intrinsic::x86_bmi_pdep_64: D[0] = eV(pdepE(toE(A(0), w), toE(A(1), w), w)); return;
        case Intrinsic::x86_sse2_pause: return;
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
            unsigned n = nslots(C.getArgOperand(0)->getType()); unsigned o = x.sub == Intrinsic::vector_reduce_add ? Instruction::Add : x.sub == Intrinsic::vector_reduce_or ? Instruction::Or : x.sub == Intrinsic::vector_reduce_and ? Instruction::And : x.sub == Intrinsic::vector_reduce_mul ? Instruction::Mul : Instruction::Xor;
            V r = A(0, 0); for (unsigned i = 1; i < n; i++) r = binop(o, w, r, A(0, i)); D[0] = r; return; }
        case Intrinsic::load_relative: { u64 b = conc(s, A(0)), o = conc(s, A(1)); V d = load(s, cV(b + o), 32); D[0] = cV(b + (u64)sext64(d.c, 32)); return; }
        default: unsupported(s, "intrinsic " + C.getCalledFunction()->getName().str());
    }
}
