#define EXT(name) static void name(Exec &X, State &s, const Ins &x, std::vector<V> &a, V *D)
constexpr u64 HUGE_ALLOC = 1ull << 30;
static void doAlloc(Exec &X, State &s, const Ins &x, u64 n, OKind k, V *D, int fill) {
    if (n > HUGE_ALLOC) {
        if (k == O_Malloc) { D[0] = cV(0); return; }
        if (n >> 40) { if (auto *F = M->getFunction("sx_rt_bad_alloc")) { X.enter(s, g_funcs[F], nullptr, 0); X.switched = true; return; } }
        X.unsupported(s, "allocation of " + std::to_string(n) + " bytes");
    }
    s.heapLive++; D[0] = cV(s.mem.alloc(k, n, fill, x.I));
}
static void doFree(Exec &X, State &s, u64 p, OKind k, const char *what) {
    if (!p) return;
    Obj *o = s.mem.find(p);
    if (!o || o->base != p || o->kind < O_Malloc) X.fail(s, "memory", std::string("invalid ") + what + " of " + X.describe(s, p));
    if (o->kind != k) X.fail(s, "memory", std::string("mismatched deallocation: ") + what + " of " + X.describe(s, p));
    s.mem.free_(o); s.heapLive--;
}
EXT(e_malloc) { doAlloc(X, s, x, X.conc(s, a[0]), O_Malloc, D, 0xbe); }
EXT(e_calloc) { u64 n = X.conc(s, a[0]), m = X.conc(s, a[1]); doAlloc(X, s, x, n * m, O_Malloc, D, 0); }
EXT(e_memalign) { doAlloc(X, s, x, X.conc(s, a[1]), O_Malloc, D, 0xbe); }
EXT(e_posix_memalign) { u64 p = X.conc(s, a[0]), n = X.conc(s, a[2]); V t[1]; doAlloc(X, s, x, n, O_Malloc, t, 0xbe); X.store(s, cV(p), 64, t[0]); D[0] = cV(0); }
EXT(e_realloc) { u64 p = X.conc(s, a[0]), n = X.conc(s, a[1]); if (!p) { doAlloc(X, s, x, n, O_Malloc, D, 0xbe); return; }
    Obj *o = s.mem.find(p); if (!o || o->base != p || o->kind != O_Malloc) X.fail(s, "memory", "invalid realloc of " + X.describe(s, p));
    if (n > HUGE_ALLOC) { D[0] = cV(0); return; }
    u64 q = s.mem.alloc(O_Malloc, n, 0xbe, x.I); X.copyMem(s, q, p, std::min(n, o->size)); s.mem.free_(s.mem.find(p)); D[0] = cV(q); }
EXT(e_free) { doFree(X, s, X.conc(s, a[0]), O_Malloc, "free"); }
EXT(e_new) { doAlloc(X, s, x, X.conc(s, a[0]), O_New, D, 0xbe); }
EXT(e_newarr) { doAlloc(X, s, x, X.conc(s, a[0]), O_NewArr, D, 0xbe); }
EXT(e_delete) { doFree(X, s, X.conc(s, a[0]), O_New, "delete"); }
EXT(e_deletearr) { doFree(X, s, X.conc(s, a[0]), O_NewArr, "delete[]"); }
EXT(e_memcpy) { u64 d = X.conc(s, a[0]), p = X.conc(s, a[1]), n = X.conc(s, a[2]); X.copyMem(s, d, p, n); D[0] = cV(d); }
EXT(e_mempcpy) { u64 d = X.conc(s, a[0]), p = X.conc(s, a[1]), n = X.conc(s, a[2]); X.copyMem(s, d, p, n); D[0] = cV(d + n); }
EXT(e_memset) { u64 d = X.conc(s, a[0]), n = X.conc(s, a[2]); V v = a[1]; X.setMem(s, d, v.e ? eV(mkExtract(v.e, 0, 8)) : cV(v.c & 255), n); D[0] = cV(d); }
EXT(e_memcmp) { u64 p = X.conc(s, a[0]), q = X.conc(s, a[1]), n = X.conc(s, a[2]); D[0] = X.memcmpV(s, p, q, n); }
EXT(e_nop0) { D[0] = cV(0); }
EXT(e_sysconf) { u64 n = X.conc(s, a[0]); if (n == 30) D[0] = cV(4096); else if (n == 84 || n == 83) D[0] = cV(8); else X.unsupported(s, "sysconf(" + std::to_string(n) + ")"); }
EXT(e_abort) { X.fail(s, "abort", "abort() reached"); }
EXT(e_terminate) { X.fail(s, "abort", "std::terminate() reached"); }
EXT(e_exit) { X.fail(s, "exit", "exit() reached"); }
EXT(e_purevirt) { X.fail(s, "abort", "pure virtual method called"); }
EXT(e_assertfail) { X.fail(s, "abort", "assertion failed: " + X.cstr(s, X.conc(s, a[0]))); }
// -- exceptions
EXT(e_alloc_ex) { u64 n = X.conc(s, a[0]); u64 p = s.mem.alloc(O_Mmap, n + 64, 0, x.I); D[0] = cV(p + 64); }
EXT(e_free_ex) { u64 p = X.conc(s, a[0]); Obj *o = s.mem.find(p); if (o) s.mem.free_(o); D[0] = cV(0); }
EXT(e_throw) { u64 p = X.conc(s, a[0]); X.store(s, cV(p - 32), 64, a[1]); X.store(s, cV(p - 40), 64, a[2]); X.store(s, cV(p - 24), 64, cV(0)); X.store(s, cV(p - 16), 64, cV(p)); X.switched = true; X.throwEx(s, p); }
EXT(e_begin_catch) { u64 p = X.conc(s, a[0]); u64 h = X.rd64(s, p - 24); X.store(s, cV(p - 24), 64, cV(h + 1)); if (s.T().uncaught) s.T().uncaught--; s.T().caught.push_back(p); D[0] = cV(X.rd64(s, p - 16)); }
EXT(e_get_ex_ptr) { u64 p = X.conc(s, a[0]); D[0] = cV(X.rd64(s, p - 16)); }
EXT(e_end_catch) { if (s.T().caught.empty()) { D[0] = cV(0); return; } u64 p = s.T().caught.back(); s.T().caught.pop_back(); int64_t h = X.rd64(s, p - 24);
    if (h < 0) { X.store(s, cV(p - 24), 64, cV(h + 1)); D[0] = cV(0); return; }   // rethrown: keep alive
    X.store(s, cV(p - 24), 64, cV(h - 1));
    if (h - 1 == 0) { bool still = false; for (auto q : s.T().caught) if (q == p) still = true; if (!still) { u64 d = X.rd64(s, p - 40); u64 ix = (d - FN_BASE) / 16; if (d >= FN_BASE && ix < g_funcByIdx.size()) { V arg = cV(p); Func *f = g_funcByIdx[ix];
        if (!f->F->isDeclaration()) { // run the destructor; the frame returns into the end_catch call instruction
            X.enter(s, f, &arg, 1); X.switched = true; return; } } } }
    D[0] = cV(0); }
EXT(e_rethrow) { if (s.T().caught.empty()) X.fail(s, "abort", "rethrow without active exception"); u64 p = s.T().caught.back(); int64_t h = X.rd64(s, p - 24); X.store(s, cV(p - 24), 64, cV(-(h))); if (h == 1) X.store(s, cV(p - 24), 64, cV(-1)); X.switched = true; X.throwEx(s, p); }
EXT(e_resume) { u64 p = X.conc(s, a[0]); X.popFrame(s); X.switched = true; X.unwind(s, p); }
EXT(e_call_unexpected) { X.fail(s, "abort", "unexpected exception"); }
EXT(e_uncaught) { D[0] = cV(s.T().uncaught); }
EXT(e_dyncast) { u64 p = X.conc(s, a[0]), dst = X.conc(s, a[2]); if (!p) { D[0] = cV(0); return; } u64 vp = X.rd64(s, p); int64_t top = X.rd64(s, vp - 16); u64 ti = X.rd64(s, vp - 8); u64 whole = p + top; std::vector<u64> out; X.subobjects(s, ti, whole, dst, out);
    if (out.empty()) { D[0] = cV(0); return; } if (out.size() == 1) { D[0] = cV(out[0]); return; }
    // several: prefer one that contains the source subobject
    u64 best = out[0]; for (auto o : out) if (o <= p && (best > p || o > best)) best = o; D[0] = cV(best); }
// -- harness API
static std::unordered_map<std::string, Expr*> g_symTab;
static Expr *symFor(State &s, const std::string &nm, unsigned w, u32 &id) {
    u32 base = nameId(nm); u32 cnt = 0; bool f = false; for (auto &p : s.symCount) if (p.first == base) { cnt = p.second++; f = true; break; } if (!f) s.symCount.push_back({base, 1});
    std::string full = cnt ? nm + "#" + std::to_string(cnt) : nm; id = nameId(full);
    auto &e = g_symTab[full + ":" + std::to_string(w)]; if (!e) e = mkSym(full, w); 
    if (s.model.v.size() < g_syms.size()) s.model.v.resize(g_syms.size());
    return e;
}
EXT(e_sym) { u64 w = a[0].c; std::string nm = X.cstr(s, X.conc(s, a[1])); u32 id;
    auto it = opt.pins.find(nm); if (it != opt.pins.end()) { s.log.push_back({nullptr, nameId(nm), it->second}); D[0] = cV(it->second); return; }
    Expr *e = symFor(s, nm, w, id); s.log.push_back({e, id, 0}); D[0] = eV(w < 64 ? mkZExt(e, 64) : e); }
EXT(e_choose) {
    u64 n = X.conc(s, a[0]); std::string nm = X.cstr(s, X.conc(s, a[1])); u32 id = nameId(nm);
    auto it = opt.pins.find(nm); if (it != opt.pins.end()) { s.log.push_back({nullptr, id, it->second}); D[0] = cV(it->second); return; }
    if (n == 0) { throw Kill{}; }
    // one state per alternative: the value is concrete on each
    int dst = x.dst;
    for (u64 v = n; v-- > 1;) { State *t = X.fork(s); t->log.push_back({nullptr, id, v}); State *ss = X.S; X.S = t; X.reload(); X.R[dst] = cV(v); X.finishCall(); X.S = ss; X.push(t); }
    X.reload(); s.log.push_back({nullptr, id, 0}); X.R[dst] = cV(0); }
EXT(e_assume) {
    V c = a[0]; if (!c.e) { if (!c.c) { st.killedAssume++; throw Kill{}; } return; }
    u64 kv; if (X.knownVal(s, c.e, kv)) { if (!kv) { st.killedAssume++; throw Kill{}; } return; }
    if (!X.modelTrue(s, c.e)) { Model m; Sat r = X.check(s, c.e, m); if (r != SAT) { st.killedAssume++; throw Kill{}; } s.model = std::move(m); }
    X.addCons(s, c.e); }
EXT(e_assert) {
    V c = a[0]; std::string m = X.cstr(s, X.conc(s, a[1])); st.asserts++; st.assertMsgs[m]++;
    if (!c.e) { if (!c.c) X.fail(s, "assert", m); return; }
    st.assertsSym++; X.must(s, c.e, "assert", m); }
EXT(e_forkval) { D[0] = cV(X.conc(s, a[0])); }
EXT(e_observe) { u32 t = nameId(X.cstr(s, X.conc(s, a[0]))); s.obs.push_back({t, a[1]}); }
EXT(e_cover) { st.cover[X.cstr(s, X.conc(s, a[0]))]++; }
EXT(e_heaplive) { D[0] = cV(s.heapLive); }
EXT(e_note) { if (getenv("SX_VERBOSE")) fprintf(stderr, "note: %s\n", X.cstr(s, X.conc(s, a[0])).c_str()); }
EXT(e_debug) { fprintf(stderr, "debug %s = %s\n", X.cstr(s, X.conc(s, a[0])).c_str(), a[1].e ? exprStr(a[1].e, 8).c_str() : std::to_string(a[1].c).c_str()); }
EXT(e_is_sym) { D[0] = cV(0); }
EXT(e_stop) { X.popFrame(s); st.killedAssume++; throw Kill{}; }
// -- threads
EXT(e_spawn) { // sx_spawn(fn, arg) -> thread index
    u64 fn = X.conc(s, a[0]); u64 ix = (fn - FN_BASE) / 16; Func *f = g_funcByIdx.at(ix); int me = s.cur;
    int t = s.th.size(); s.th.emplace_back(); Thread &T = s.th[t]; T.stackBase = T.stackTop = 16384 + 1024 * (t - 1); T.stackEnd = T.stackBase + 1024; if (t > 7) X.unsupported(s, "too many threads");
    s.cur = t; X.enter(s, f, &a[1], 1); s.cur = me; X.reload(); if (x.n) X.R[x.dst] = cV(t); }
EXT(e_join_all) { if (s.th.size() == 1) return; Thread &T = s.T(); bool all = true; for (size_t j = 1; j < s.th.size(); j++) if (s.th[j].stat != T_Done) all = false; if (all) { T.stat = T_Run; s.schedOk = false; s.th.resize(1); return; } T.stat = T_Join; T.waitOn = ~0ull; X.switched = true; X.pickThread(s, "join"); }
EXT(e_join) { u64 t = X.conc(s, a[0]); Thread &T = s.T(); if (t < s.th.size() && s.th[t].stat == T_Done) { T.stat = T_Run; s.schedOk = false; return; } T.stat = T_Join; T.waitOn = t; X.switched = true; X.pickThread(s, "join"); }
EXT(e_self) { D[0] = cV(s.cur); }
EXT(e_yield) { if (X.schedPoint(s)) X.switched = true; }
EXT(e_mutex_init) { X.store(s, cV(a[0].c), 32, cV(0)); D[0] = cV(0); }
EXT(e_mutex_lock) {
    if (X.schedPoint(s)) { X.switched = true; return; }
    Thread &T = s.T(); V v = X.load(s, a[0], 32);
    if (v.c == 0) { T.stat = T_Run; X.store(s, a[0], 32, cV(s.cur + 1)); D[0] = cV(0); return; }
    if (v.c == (u64)s.cur + 1) X.fail(s, "deadlock", "mutex locked again by the thread that holds it");
    T.stat = T_BlockMutex; T.waitOn = a[0].c; X.switched = true; X.pickThread(s, "mutex"); }
EXT(e_mutex_trylock) { if (X.schedPoint(s)) { X.switched = true; return; } V v = X.load(s, a[0], 32); if (v.c == 0) { X.store(s, a[0], 32, cV(s.cur + 1)); D[0] = cV(0); } else D[0] = cV(16); }
EXT(e_mutex_unlock) { V v = X.load(s, a[0], 32); if (v.c != (u64)s.cur + 1) X.fail(s, "locking", "mutex unlocked by a thread that does not hold it"); X.store(s, a[0], 32, cV(0)); D[0] = cV(0); }
EXT(e_cond_wait) { // (cond, mutex)
    Thread &T = s.T();
    if (T.phase == 0) { // release and wait
        V v = X.load(s, a[1], 32); if (v.c != (u64)s.cur + 1) X.fail(s, "locking", "condition wait without holding the mutex");
        X.store(s, a[1], 32, cV(0)); T.stat = T_WaitCV; T.waitOn = a[0].c; T.phase = 1; X.switched = true; X.pickThread(s, "wait"); return; }
    s.schedOk = false;
    V v = X.load(s, a[1], 32); if (v.c == 0) { T.phase = 0; T.stat = T_Run; X.store(s, a[1], 32, cV(s.cur + 1)); D[0] = cV(0); return; }
    T.stat = T_BlockMutex; T.waitOn = a[1].c; X.switched = true; X.pickThread(s, "mutex"); }
static void wake(Thread &t) { t.stat = T_Run; t.waitOn = 0; }
EXT(e_cond_signal) {
    if (X.schedPoint(s)) { X.switched = true; return; }
    std::vector<int> w; for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].stat == T_WaitCV && s.th[i].waitOn == a[0].c) w.push_back(i);
    D[0] = cV(0); if (w.empty()) return;
    if (w.size() > 1) { u32 nm = nameId("wake"); for (size_t k = 1; k < w.size(); k++) { State *t = X.fork(s); wake(t->th[w[k]]); t->log.push_back({nullptr, nm, (u64)w[k]}); State *ss = X.S; X.S = t; X.reload(); if (x.n) X.R[x.dst] = cV(0); X.finishCall(); X.S = ss; X.push(t); } X.reload(); s.log.push_back({nullptr, nm, (u64)w[0]}); if (x.n) X.R[x.dst] = cV(0); }
    wake(s.th[w[0]]); }
EXT(e_cond_broadcast) { if (X.schedPoint(s)) { X.switched = true; return; } for (auto &t : s.th) if (t.stat == T_WaitCV && t.waitOn == a[0].c) wake(t); D[0] = cV(0); }
// -- native bridges (concrete arguments; a symbolic argument is enumerated)

EXT(e_hash_bytes) { u64 p = X.conc(s, a[0]), n = X.conc(s, a[1]), seed = X.conc(s, a[2]); std::string b; for (u64 i = 0; i < n; i++) { V v = X.load(s, cV(p + i), 8); b += (char)X.conc(s, v); } D[0] = cV(std::_Hash_bytes(b.data(), n, seed)); }
EXT(e_next_bkt) { u64 t = X.conc(s, a[0]), n = X.conc(s, a[1]); std::__detail::_Prime_rehash_policy p; u64 w0 = X.rd64(s, t), w1 = X.rd64(s, t + 8); memcpy((void*)&p, &w0, 8); memcpy((char*)&p + 8, &w1, 8); u64 r = p._M_next_bkt(n); memcpy(&w0, &p, 8); memcpy(&w1, (char*)&p + 8, 8); X.store(s, cV(t), 64, cV(w0)); X.store(s, cV(t + 8), 64, cV(w1)); D[0] = cV(r); }
EXT(e_need_rehash) { u64 t = X.conc(s, a[0]), n = X.conc(s, a[1]), e = X.conc(s, a[2]), i = X.conc(s, a[3]); std::__detail::_Prime_rehash_policy p; u64 w0 = X.rd64(s, t), w1 = X.rd64(s, t + 8); memcpy((void*)&p, &w0, 8); memcpy((char*)&p + 8, &w1, 8); auto r = p._M_need_rehash(n, e, i); memcpy(&w0, &p, 8); memcpy(&w1, (char*)&p + 8, 8); X.store(s, cV(t), 64, cV(w0)); X.store(s, cV(t + 8), 64, cV(w1)); D[0] = cV(r.first); D[1] = cV(r.second); }
EXT(e_strtod) { u64 p = X.conc(s, a[0]), ep = X.conc(s, a[1]); std::string b; for (u64 q = p;; q++) { V v = X.load(s, cV(q), 8); char c = (char)X.conc(s, v); if (!c) break; b += c; } char *end; double d = strtod(b.c_str(), &end); if (ep) X.store(s, cV(ep), 64, cV(p + (end - b.c_str()))); D[0] = cV(db(d)); }
EXT(e_strtold) { u64 p = X.conc(s, a[0]), ep = X.conc(s, a[1]); std::string b; for (u64 q = p;; q++) { V v = X.load(s, cV(q), 8); char c = (char)X.conc(s, v); if (!c) break; b += c; } char *end; long double d = strtold(b.c_str(), &end); if (ep) X.store(s, cV(ep), 64, cV(p + (end - b.c_str()))); D[0] = lb(d); }
EXT(e_strtof) { u64 p = X.conc(s, a[0]), ep = X.conc(s, a[1]); std::string b; for (u64 q = p;; q++) { V v = X.load(s, cV(q), 8); char c = (char)X.conc(s, v); if (!c) break; b += c; } char *end; float d = strtof(b.c_str(), &end); if (ep) X.store(s, cV(ep), 64, cV(p + (end - b.c_str()))); D[0] = cV(fb(d)); }
EXT(e_fmtd) { // sx_rt_format_double(char *buf, size_t n, const char *fmt, int prec, double v) -> length
    u64 buf = X.conc(s, a[0]), n = X.conc(s, a[1]); std::string f = X.cstr(s, X.conc(s, a[2])); int prec = (int)X.conc(s, a[3]); u64 v = X.conc(s, a[4]); std::string o(n, 0); int r = snprintf(o.data(), n, f.c_str(), prec, bd(v)); for (int i = 0; i <= r && i < (int)n; i++) X.store(s, cV(buf + i), 8, cV((u8)o[i])); D[0] = cV((u32)r); }
EXT(e_gmtime) { u64 tp = X.conc(s, a[0]), out = X.conc(s, a[1]); time_t t = (time_t)X.rd64(s, tp); struct tm r; memset(&r, 0, sizeof r); if (!gmtime_r(&t, &r)) { D[0] = cV(0); return; } for (unsigned i = 0; i < sizeof r; i++) X.store(s, cV(out + i), 8, cV(((u8*)&r)[i])); X.store(s, cV(out + offsetof(struct tm, tm_zone)), 64, cV(0)); D[0] = cV(out); }
EXT(e_timegm) { u64 tp = X.conc(s, a[0]); struct tm r; for (unsigned i = 0; i < sizeof r; i++) ((u8*)&r)[i] = (u8)X.conc(s, X.load(s, cV(tp + i), 8)); r.tm_zone = nullptr; time_t t = timegm(&r); for (unsigned i = 0; i < offsetof(struct tm, tm_gmtoff); i++) X.store(s, cV(tp + i), 8, cV(((u8*)&r)[i])); D[0] = cV((u64)t); }
template <double (*f)(double)> static void m1(Exec &X, State &s, const Ins &x, std::vector<V> &a, V *D) { D[0] = cV(db(f(bd(X.conc(s, a[0]))))); }
template <float (*f)(float)> static void m1f(Exec &X, State &s, const Ins &x, std::vector<V> &a, V *D) { D[0] = cV(fb(f(bf(X.conc(s, a[0]))))); }
template <double (*f)(double, double)> static void m2(Exec &X, State &s, const Ins &x, std::vector<V> &a, V *D) { u64 p = X.conc(s, a[0]), q = X.conc(s, a[1]); D[0] = cV(db(f(bd(p), bd(q)))); }
EXT(e_fmod) { u64 p = X.conc(s, a[0]), q = X.conc(s, a[1]); D[0] = cV(db(fmod(bd(p), bd(q)))); }
EXT(e_fmodf) { u64 p = X.conc(s, a[0]), q = X.conc(s, a[1]); D[0] = cV(fb(fmodf(bf(p), bf(q)))); }
template <unsigned md, unsigned w> static void mr(Exec &X, State &s, const Ins &x, std::vector<V> &a, V *D) { D[0] = eV(mkFUn(K_FRnd, toE(a[0], w), w, md)); }
EXT(e_powl) { D[0] = lb(powl(bl(a[0].e), bl(a[1].e))); }
EXT(e_log2l) { D[0] = lb(log2l(bl(a[0].e))); }
EXT(e_unsup) { X.unsupported(s, "external function"); }
EXT(e_clock) { D[0] = cV(0); }

static const std::unordered_map<std::string, ExtFn> &externals() {
    static const std::unordered_map<std::string, ExtFn> t = {
        {"malloc", e_malloc}, {"calloc", e_calloc}, {"realloc", e_realloc}, {"free", e_free}, {"aligned_alloc", e_memalign}, {"memalign", e_memalign}, {"posix_memalign", e_posix_memalign},
        {"_Znwm", e_new}, {"_Znam", e_newarr}, {"_ZnwmSt11align_val_t", e_new}, {"_ZnamSt11align_val_t", e_newarr}, {"_ZnwmRKSt9nothrow_t", e_new}, {"_ZnamRKSt9nothrow_t", e_newarr},
        {"_ZdlPv", e_delete}, {"_ZdlPvm", e_delete}, {"_ZdlPvSt11align_val_t", e_delete}, {"_ZdlPvmSt11align_val_t", e_delete}, {"_ZdaPv", e_deletearr}, {"_ZdaPvm", e_deletearr}, {"_ZdaPvSt11align_val_t", e_deletearr}, {"_ZdlPvRKSt9nothrow_t", e_delete}, {"_ZdaPvRKSt9nothrow_t", e_deletearr},
        {"memcpy", e_memcpy}, {"memmove", e_memcpy}, {"mempcpy", e_mempcpy}, {"memset", e_memset}, {"memcmp", e_memcmp}, {"bcmp", e_memcmp}, {"__memcpy_chk", e_memcpy}, {"__memset_chk", e_memset},
        {"abort", e_abort}, {"_ZSt9terminatev", e_terminate}, {"exit", e_exit}, {"_exit", e_exit}, {"__cxa_pure_virtual", e_purevirt}, {"__assert_fail", e_assertfail},
        {"__cxa_atexit", e_nop0}, {"atexit", e_nop0}, {"__cxa_thread_atexit", e_nop0},
        {"__cxa_allocate_exception", e_alloc_ex}, {"__cxa_free_exception", e_free_ex}, {"__cxa_throw", e_throw}, {"__cxa_begin_catch", e_begin_catch}, {"__cxa_end_catch", e_end_catch}, {"__cxa_get_exception_ptr", e_get_ex_ptr}, {"__cxa_rethrow", e_rethrow}, {"_Unwind_Resume", e_resume}, {"__cxa_call_unexpected", e_call_unexpected},
        {"_ZSt18uncaught_exceptionv", e_uncaught}, {"_ZSt19uncaught_exceptionsv", e_uncaught}, {"__dynamic_cast", e_dyncast},
        {"sx_sym", e_sym}, {"sx_choose", e_choose}, {"sx_assume", e_assume}, {"sx_assert_", e_assert}, {"sx_fork_value", e_forkval}, {"sx_observe", e_observe}, {"sx_cover", e_cover}, {"sx_heap_live", e_heaplive}, {"sx_note", e_note}, {"sx_debug", e_debug}, {"sx_native", e_is_sym},
        {"sx_spawn", e_spawn}, {"sx_join_all", e_join_all}, {"sx_join", e_join}, {"sx_self", e_self}, {"sx_yield", e_yield},
        {"pthread_mutex_init", e_mutex_init}, {"pthread_mutex_destroy", e_nop0}, {"pthread_mutex_lock", e_mutex_lock}, {"pthread_mutex_trylock", e_mutex_trylock}, {"pthread_mutex_unlock", e_mutex_unlock},
        {"pthread_cond_init", e_nop0}, {"pthread_cond_destroy", e_nop0}, {"pthread_cond_wait", e_cond_wait}, {"pthread_cond_signal", e_cond_signal}, {"pthread_cond_broadcast", e_cond_broadcast},
        {"_ZSt11_Hash_bytesPKvmm", e_hash_bytes}, {"_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm", e_next_bkt}, {"_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm", e_need_rehash},
        {"strtod", e_strtod}, {"strtold", e_strtold}, {"strtof", e_strtof}, {"sx_rt_format_double", e_fmtd}, {"gmtime_r", e_gmtime}, {"timegm", e_timegm},
        {"exp", m1<exp>}, {"log", m1<log>}, {"log2", m1<log2>}, {"log10", m1<log10>}, {"log1p", m1<log1p>}, {"exp2", m1<exp2>}, {"cbrt", m1<cbrt>}, {"sqrt", m1<sqrt>}, {"sin", m1<sin>}, {"cos", m1<cos>}, {"tgamma", m1<tgamma>}, {"lgamma", m1<lgamma>}, {"pow", m2<pow>}, {"nextafter", m2<nextafter>}, {"fmod", e_fmod}, {"fmodf", e_fmodf}, {"expf", m1f<expf>}, {"logf", m1f<logf>}, {"log2f", m1f<log2f>},
        {"floor", mr<0, 64>}, {"ceil", mr<1, 64>}, {"trunc", mr<2, 64>}, {"round", mr<4, 64>}, {"rint", mr<3, 64>}, {"floorf", mr<0, 32>}, {"ceilf", mr<1, 32>}, {"truncf", mr<2, 32>}, {"roundf", mr<4, 32>}, {"powl", e_powl}, {"log2l", e_log2l},
        {"fflush", e_nop0}, {"fclose", e_nop0}, {"puts", e_nop0}, {"putchar", e_nop0}, {"fwrite", e_nop0}, {"fputs", e_nop0}, {"fputc", e_nop0}, {"write", e_nop0}, {"printf", e_nop0}, {"fprintf", e_nop0}, {"isatty", e_nop0}, {"clock", e_clock}, {"sysconf", e_sysconf},
    };
    return t;
}
