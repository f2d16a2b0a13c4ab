// C01: expressions evaluated by the interpreter's stack machine
#include "sqlenv.hpp"
#include <cmath>
// the operand values of one row; the null flags are bit i of nulls
struct Row { int64_t k, l, m; int8_t a, h; int32_t i; float f, g; double d, e; int64_t x, y; bool b, c; char s[4], u[4]; int32_t p, q; uint32_t nulls; };
enum { K_, L_, M_, A_, H_, I_, F_, G_, D_, E_, X_, Y_, B_, C_, S_, U_, P_, Q_, NCOLS };
struct V { bool null; char kind; int64_t i; double d; std::string s; float f = 0; };
static V vi(int64_t i) { return V{false, 'i', i, 0, {}}; }
static V vb(bool b) { return V{false, 'b', b, 0, {}}; }
static V vf(float f) { return V{false, 'f', 0, 0, {}, f}; }
static V vd(double d) { return V{false, 'd', 0, d, {}}; }
static V vs(std::string s) { return V{false, 's', 0, 0, s}; }
static V vn() { return V{true, 0, 0, 0, {}}; }
static std::vector<std::pair<const char*, const PrimitiveType*>> cols() { return {{"k", I8()}, {"l", I8()}, {"m", I8()}, {"a", I1()}, {"h", I1()}, {"i", I4()}, {"f", FL()}, {"g", FL()}, {"d", DB()}, {"e", DB()}, {"x", DE(8, 2)}, {"y", DE(8, 3)}, {"b", BO()}, {"c", BO()}, {"s", VC(3)}, {"u", VC(3)}, {"p", DA()}, {"q", DA()}}; }
static uint32_t uses;   // the columns an expression mentions
static Row row(uint32_t used, uint32_t nullable) {
    Row r{}; auto on = [&](unsigned c) { return used >> c & 1; };
    if (on(K_)) r.k = sx_make<int64_t>("k"); if (on(L_)) r.l = sx_make<int64_t>("l"); if (on(M_)) r.m = sx_make<int64_t>("m"); if (on(A_)) r.a = sx_make<int8_t>("a"); if (on(H_)) r.h = sx_make<int8_t>("h"); if (on(I_)) r.i = sx_make<int32_t>("i");
    if (on(F_)) r.f = sx_make<float>("f"); if (on(G_)) r.g = sx_make<float>("g"); if (on(D_)) r.d = sx_make<double>("d"); if (on(E_)) r.e = sx_make<double>("e");
    if (on(X_)) { r.x = sx_make<int32_t>("x"); sx_assume(r.x > -100000000 && r.x < 100000000); } if (on(Y_)) { r.y = sx_make<int32_t>("y"); sx_assume(r.y > -100000000 && r.y < 100000000); }
    if (on(B_)) r.b = sx_bool("b"); if (on(C_)) r.c = sx_bool("c"); if (on(P_)) r.p = sx_make<int32_t>("p"); if (on(Q_)) r.q = sx_make<int32_t>("q");
    if (on(S_)) { unsigned n = sx_choose(4, "length"); for (unsigned j = 0; j < n; j++) { r.s[j] = sx_make<char>("s"); sx_assume(r.s[j] != 0); } } if (on(U_)) { unsigned n = sx_choose(4, "length"); for (unsigned j = 0; j < n; j++) { r.u[j] = sx_make<char>("u"); sx_assume(r.u[j] != 0); } }
    for (unsigned c = 0; c < NCOLS; c++) if (on(c) && (nullable >> c & 1) && sx_choose(2, "null")) r.nulls |= 1u << c;
    return r;
}
static void fill(Tuple &t, const Row &r, uint32_t used) {
    auto put = [&](unsigned c, Value v) { if (!(used >> c & 1)) return; if (r.nulls >> c & 1) t.null(c); else t.set(c, v); };
    put(K_, r.k); put(L_, r.l); put(M_, r.m); put(A_, int64_t(r.a)); put(H_, int64_t(r.h)); put(I_, int64_t(r.i)); put(F_, r.f); put(G_, r.g); put(D_, r.d); put(E_, r.e); put(X_, r.x); put(Y_, r.y); put(B_, r.b); put(C_, r.c); put(P_, int64_t(r.p)); put(Q_, int64_t(r.q));
    for (unsigned c : {S_, U_}) if (used >> c & 1) { if (r.nulls >> c & 1) t.null(c); else { t.not_null(c); memcpy(t[c].as_p(), c == S_ ? r.s : r.u, 4); } }
}
struct Ex { const char *text; uint32_t used; V (*want)(const Row &); };
// equal as values: the same bits, both zero, or both not a number
static bool same(float a, float b) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); if (x == y) return true; return (a == 0 && b == 0) || (std::isnan(a) && std::isnan(b)); }
static bool same(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); if (x == y) return true; return (a == 0 && b == 0) || (std::isnan(a) && std::isnan(b)); }
// factors that the compiler does not strength-reduce
static volatile int64_t hundred = 100, thousand = 1000, tenthousand = 10000, ten = 10;
static void eval(const Ex &x, uint32_t nullable = ~0u) {
    Env env; auto &T = env.table("t", cols()); std::string q = "SELECT "; q += x.text; q += " FROM t;"; auto st = env.parse(q); sx_check(st != nullptr, "a well-typed expression is accepted");
    auto &sel = as<ast::SelectStmt>(*st); auto &clause = as<ast::SelectClause>(*sel.select); const ast::Expr &e = *clause.select.front().first;
    Schema S; for (auto &c : cols()) S.add({T.name(), env.C.pool(c.first)}, c.second);
    Row r = row(x.used, nullable); Tuple in(S), res({e.type()}); fill(in, r, x.used);
    StackMachine sm(S); sm.emit(e, 1); sm.emit_St_Tup(0, 0, e.type()); Tuple *args[] = {&res, &in};
    V w = x.want(r);   // may assume away operands for which SQL defines no value
    sm(args); for (unsigned again = 0; again < 1; again++) sm(args);   // a machine can be run again
    sx_check(res.is_null(0) == w.null, "NULL exactly when SQL says so"); if (w.null) { sx_cover("null"); return; } sx_cover("value");
    switch (w.kind) { case 'i': sx_check(res[0].as_i() == w.i, "the value SQL defines"); sx_observe("i", res[0].as_i()); break; case 'b': sx_check(res[0].as_b() == (bool)w.i, "the truth value SQL defines"); sx_observe("b", res[0].as_b()); break;
        case 'f': sx_check(same(res[0].as_f(), w.f), "the value SQL defines"); break; case 'd': sx_check(same(res[0].as_d(), w.d), "the value SQL defines"); break;
        case 's': sx_check(strcmp((const char*)res[0].as_p(), w.s.c_str()) == 0, "the string SQL defines"); break; }
}
#define N(c) ((r.nulls >> c##_) & 1)
#define NA(c, e) (N(c) ? vn() : e)
#define NB(c, g, e) (N(c) || N(g) ? vn() : e)
#define U(c) (1u << c##_)
#define EX1(text, c, e) {text, U(c), [](const Row &r) -> V { return NA(c, e); }}
#define EX2(text, c, g, e) {text, U(c) | U(g), [](const Row &r) -> V { return NB(c, g, e); }}
static V chk(bool overflow, int64_t v) { sx_assume(!overflow); return vi(v); }
static V ad(int64_t a, int64_t b) { int64_t v; bool o = __builtin_add_overflow(a, b, &v); return chk(o, v); }
static V sb(int64_t a, int64_t b) { int64_t v; bool o = __builtin_sub_overflow(a, b, &v); return chk(o, v); }
static V dv(int64_t a, int64_t b) { sx_assume(b != 0); return vi(a / b); }
static V md(int64_t a, int64_t b) { sx_assume(b != 0); return vi(a % b); }
static int scmp(const char *a, const char *b) { for (;; a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
// Kleene logic: 0 false, 1 true, 2 unknown
static int t3(bool null, bool v) { return null ? 2 : v; }
static V k3(int v) { return v == 2 ? vn() : vb(v); }
static int and3(int a, int b) { return a == 0 || b == 0 ? 0 : a == 2 || b == 2 ? 2 : 1; }
static int or3(int a, int b) { return a == 1 || b == 1 ? 1 : a == 2 || b == 2 ? 2 : 0; }
static int not3(int a) { return a == 2 ? 2 : !a; }
template<size_t n> static void pick(const Ex (&t)[n], uint32_t nullable = ~0u) { eval(t[sx_choose(n, "expression")], nullable); }
SX_MAIN(ints) { static const Ex t[] = {EX2("k + l", K, L, ad(r.k, r.l)), EX2("k - l", K, L, sb(r.k, r.l)), EX1("-k", K, chk(r.k == INT64_MIN, -r.k)), EX1("+k", K, vi(r.k)), EX1("~k", K, vi(~r.k)), EX2("a + k", A, K, ad(r.a, r.k)), EX2("i - a", I, A, sb(r.i, r.a)),
    EX2("a * h", A, H, vi(r.a * r.h)), EX2("a / h", A, H, dv(r.a, r.h)), EX2("a % h", A, H, md(r.a, r.h)), EX1("k + 42", K, ad(r.k, 42)), EX1("7 - a", A, vi(7 - r.a)), EX1("a * 3", A, vi(r.a * 3)), EX1("a / 7", A, vi(r.a / 7)), EX1("a % 7", A, vi(r.a % 7)), EX1("100 / a", A, dv(100, r.a)),
    EX1("-a", A, vi(-r.a)), EX1("~a", A, vi(~(int64_t)r.a))}; pick(t); }
SX_MAIN(comparisons) { static const Ex t[] = {EX2("k = l", K, L, vb(r.k == r.l)), EX2("k != l", K, L, vb(r.k != r.l)), EX2("k < l", K, L, vb(r.k < r.l)), EX2("k <= l", K, L, vb(r.k <= r.l)), EX2("k > l", K, L, vb(r.k > r.l)), EX2("k >= l", K, L, vb(r.k >= r.l)), EX2("a < k", A, K, vb(r.a < r.k)), EX2("i = a", I, A, vb(r.i == r.a)), EX1("k > 5", K, vb(r.k > 5)), EX1("-3 <= a", A, vb(r.a >= -3)),
    EX2("b = c", B, C, vb(r.b == r.c)), EX2("b != c", B, C, vb(r.b != r.c)), EX2("p = q", P, Q, vb(r.p == r.q)), EX2("p != q", P, Q, vb(r.p != r.q)), EX2("p < q", P, Q, vb(r.p < r.q)), EX2("p >= q", P, Q, vb(r.p >= r.q)), EX1("p <= d'2020-02-03'", P, vb(r.p <= (2020 << 9 | 2 << 5 | 3))), EX1("b = TRUE", B, vb(r.b))}; pick(t); }
SX_MAIN(logic) { static const Ex t[] = {
    {"b AND c", U(B) | U(C), [](const Row &r) { return k3(and3(t3(N(B), r.b), t3(N(C), r.c))); }}, {"b OR c", U(B) | U(C), [](const Row &r) { return k3(or3(t3(N(B), r.b), t3(N(C), r.c))); }}, {"NOT b", U(B), [](const Row &r) { return k3(not3(t3(N(B), r.b))); }},
    {"b AND TRUE OR NOT c", U(B) | U(C), [](const Row &r) { return k3(or3(t3(N(B), r.b), not3(t3(N(C), r.c)))); }}, {"NOT (b AND c) OR FALSE", U(B) | U(C), [](const Row &r) { return k3(not3(and3(t3(N(B), r.b), t3(N(C), r.c)))); }},
    {"k = l AND NOT (b OR a < h)", U(K) | U(L) | U(B) | U(A) | U(H), [](const Row &r) { return k3(and3(t3(N(K) || N(L), r.k == r.l), not3(or3(t3(N(B), r.b), t3(N(A) || N(H), r.a < r.h))))); }},
    {"ISNULL(b)", U(B), [](const Row &r) { return vb(N(B)); }}, {"ISNULL(k + l)", U(K) | U(L), [](const Row &r) { sx_assume(r.k < 1000 && r.k > -1000 && r.l < 1000 && r.l > -1000); return vb(N(K) || N(L)); }}, {"ISNULL(b AND c)", U(B) | U(C), [](const Row &r) { return vb(and3(t3(N(B), r.b), t3(N(C), r.c)) == 2); }}, {"ISNULL(s)", U(S), [](const Row &r) { return vb(N(S)); }},
    {"NOT ISNULL(k) AND k > 3", U(K), [](const Row &r) { return vb(!N(K) && r.k > 3); }}}; pick(t); }
SX_MAIN(strings) { static const Ex t[] = {EX2("s = u", S, U, vb(scmp(r.s, r.u) == 0)), EX2("s != u", S, U, vb(scmp(r.s, r.u) != 0)), EX2("s < u", S, U, vb(scmp(r.s, r.u) < 0)), EX2("s <= u", S, U, vb(scmp(r.s, r.u) <= 0)), EX2("s > u", S, U, vb(scmp(r.s, r.u) > 0)), EX2("s >= u", S, U, vb(scmp(r.s, r.u) >= 0)),
    EX1("s = \"ab\"", S, vb(scmp(r.s, "ab") == 0)), EX1("\"b\" > s", S, vb(scmp("b", r.s) > 0)), {"s .. \"xy\"", U(S), [](const Row &r) { sx_assume(!N(S)); return vs(std::string(r.s) + "xy"); }}, {"s .. u", U(S) | U(U), [](const Row &r) { sx_assume(!N(S) && !N(U)); return vs(std::string(r.s) + r.u); }}, {"s .. u .. s", U(S) | U(U), [](const Row &r) { sx_assume(!N(S) && !N(U)); return vs(std::string(r.s) + r.u + r.s); }},
    {"s .. u = u .. s", U(S) | U(U), [](const Row &r) { sx_assume(!N(S) && !N(U)); return vb(std::string(r.s) + r.u == std::string(r.u) + r.s); }}}; pick(t); }
SX_MAIN(floats) { static const Ex t[] = {EX2("f + g", F, G, vf(r.f + r.g)), EX2("f - g", F, G, vf(r.f - r.g)), EX2("f * g", F, G, vf(r.f * r.g)), EX2("f / g", F, G, vf(r.f / r.g)), EX1("-f", F, vf(-r.f)), EX2("d + e", D, E, vd(r.d + r.e)), EX2("d - e", D, E, vd(r.d - r.e)), EX2("d * e", D, E, vd(r.d * r.e)), EX2("d / e", D, E, vd(r.d / r.e)), EX1("-d", D, vd(-r.d)), EX2("f + d", F, D, vd((double)r.f + r.d)), EX2("d - f", F, D, vd(r.d - (double)r.f)), EX2("a + d", A, D, vd((double)r.a + r.d)), EX2("d * k", D, K, vd(r.d * (double)r.k)), EX2("a * f", A, F, vf((float)(int64_t)r.a * r.f)), EX2("f + i", F, I, vf(r.f + (float)(int64_t)r.i)),
    EX2("f = g", F, G, vb(r.f == r.g)), EX2("f < g", F, G, vb(r.f < r.g)), EX2("f >= g", F, G, vb(r.f >= r.g)), EX2("d != e", D, E, vb(r.d != r.e)), EX2("d <= e", D, E, vb(r.d <= r.e)), EX2("d > e", D, E, vb(r.d > r.e)), EX2("f < d", F, D, vb((double)r.f < r.d)), EX2("k <= d", K, D, vb((double)r.k <= r.d)), EX1("d > 2.5", D, vb(r.d > 2.5)), EX1("d + 1", D, vd(r.d + 1.))}; pick(t); }
static int64_t P10(unsigned n) { int64_t v = 1; while (n--) v *= 10; return v; }
static V dq(int64_t a, int64_t b) { sx_assume(b != 0); return vi(a / b); }
SX_MAIN(decimals) { static const Ex t[] = {   // x has two places, y three
    EX2("x + y", X, Y, vi(r.x * ten + r.y)), EX2("y - x", X, Y, vi(r.y - r.x * ten)), EX1("x + x", X, vi(r.x + r.x)), EX1("-x", X, vi(-r.x)), EX2("x + a", X, A, vi(r.x + r.a * hundred)), EX2("a - y", Y, A, vi(r.a * thousand - r.y)), EX2("x * a", X, A, vi(r.x * r.a)), EX2("x * y", X, Y, vi(r.x * r.y / hundred)),
    EX2("x = y", X, Y, vb(r.x * ten == r.y)), EX2("x < y", X, Y, vb(r.x * ten < r.y)), EX2("y >= x", X, Y, vb(r.x * ten <= r.y)), EX2("x != a", X, A, vb(r.x != r.a * hundred)), EX2("i > x", X, I, vb((int64_t)r.i * hundred > r.x)), EX2("a <= y", Y, A, vb(r.a * thousand <= r.y))}; pick(t); }
SX_MAIN(decimal_quotients) { static const Ex t[] = {EX2("x / a", X, A, dq(r.x, r.a)), EX2("a / x", X, A, dq(r.a * tenthousand, r.x)), EX2("x / y", X, Y, dq(r.x * tenthousand, r.y)), EX2("y / x", X, Y, dq(r.y * hundred, r.x)), EX2("x % y", X, Y, (sx_assume(r.y != 0), vi(r.x * ten % r.y))), EX2("y % a", A, Y, (sx_assume(r.a != 0), vi(r.y % (r.a * thousand)))), EX1("x % 3", X, vi(r.x % (3 * hundred)))}; pick(t); }
// conversions between types, as inserted values undergo them
static void convert(const PrimitiveType *from, const PrimitiveType *to, Value in, bool null, Value want) {
    Schema S; S.add({Catalog::Get().pool("c")}, from); StackMachine sm(S); sm.emit_Ld_Tup(1, 0); sm.emit_Cast(to, from); sm.emit_St_Tup(0, 0, to);
    Tuple a(S), res({to}); if (null) a.null(0); else a.set(0, in); Tuple *args[] = {&res, &a}; sm(args);
    sx_check(res.is_null(0) == null, "a conversion of NULL is NULL and of nothing else"); if (null) { sx_cover("null"); return; } sx_cover("value");
    if (to->is_boolean()) sx_check(res[0].as_b() == want.as_b(), "boolean preserved"); else if (to->is_float()) sx_check(same(res[0].as_f(), want.as_f()), "converted to float"); else if (to->is_double()) sx_check(same(res[0].as_d(), want.as_d()), "converted to double"); else sx_check(res[0].as_i() == want.as_i(), "converted to integer or decimal");
}
SX_MAIN(casts) {
    bool null = sx_choose(2, "null"); int32_t i = sx_make<int32_t>("i"); float f = sx_make<float>("f"); double d = sx_make<double>("d"); int64_t w = i; auto fin = [](double x, double lim) { sx_assume(x > -lim && x < lim); };
    switch (sx_choose(16, "conversion")) {
        case 0: convert(I4(), I8(), w, null, w); break; case 1: convert(I4(), DE(12, 2), w, null, w * hundred); break; case 2: convert(I4(), FL(), w, null, (float)w); break; case 3: convert(I4(), DB(), w, null, (double)w); break;
        case 4: fin(f, 9e18); convert(FL(), I8(), f, null, (int64_t)f); break; case 5: convert(FL(), DB(), f, null, (double)f); break; case 6: fin(d, 9e18); convert(DB(), I8(), d, null, (int64_t)d); break; case 7: convert(DB(), FL(), d, null, (float)d); break;
        case 8: convert(DE(10, 2), I8(), w, null, w / hundred); break; case 9: convert(DE(10, 2), DE(12, 4), w, null, w * hundred); break; case 10: convert(DE(10, 3), DE(12, 2), w, null, w / ten); break; case 11: convert(DE(10, 2), FL(), w, null, (float)w / 100.f); break; case 12: convert(DE(10, 2), DB(), w, null, (double)w / 100.); break;
        case 13: { bool b = sx_bool("b"); convert(BO(), I4(), b, null, int64_t(b)); break; } case 14: { fin(d, 9e12); double p = d * (double)hundred; convert(DB(), DE(16, 2), d, null, (int64_t)p); break; } case 15: { fin(f, 9e12); float p = f * (float)hundred; convert(FL(), DE(16, 2), f, null, (int64_t)p); break; }
    }
}
// several operators in one expression: precedence, grouping, and operands used more than once
SX_MAIN(nested) { static const Ex t[] = {EX2("a + h * a", A, H, vi(r.a + (int64_t)r.h * r.a)), EX2("(a + h) * a", A, H, vi(((int64_t)r.a + r.h) * r.a)), EX2("a - h - a", A, H, vi((int64_t)r.a - r.h - r.a)), EX2("a - (h - a)", A, H, vi((int64_t)r.a - (r.h - r.a))), EX2("-a + h", A, H, vi(-r.a + r.h)), EX2("-(a + h)", A, H, vi(-(r.a + r.h))), EX2("~a + ~h", A, H, vi(~r.a + ~r.h)), EX2("a * h / 3 + a % 5", A, H, vi((int64_t)r.a * r.h / 3 + r.a % 5)),
    EX2("a + h < a * 2", A, H, vb(r.a + r.h < r.a * 2)), {"a < h OR a = h AND b", U(A) | U(H) | U(B), [](const Row &r) { bool n = N(A) || N(H); return k3(or3(t3(n, r.a < r.h), and3(t3(n, r.a == r.h), t3(N(B), r.b)))); }}, {"(a < h) = b", U(A) | U(H) | U(B), [](const Row &r) { return N(A) || N(H) || N(B) ? vn() : vb((r.a < r.h) == r.b); }}, {"a * 2.5 + x", U(A) | U(X), [](const Row &r) { return N(A) || N(X) ? vn() : vi((int64_t)((double)r.a * 2.5 * 100.) + r.x); }},
    {"NOT a > 3 AND NOT h > 3", U(A) | U(H), [](const Row &r) { return k3(and3(not3(t3(N(A), r.a > 3)), not3(t3(N(H), r.h > 3)))); }}}; pick(t); }
