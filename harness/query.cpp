// C02: queries through the interpreter against relational algebra computed here
#include "sqlenv.hpp"
#include <mutable/IR/Operator.hpp>
#include <mutable/storage/DataLayoutFactory.hpp>
#include <mutable/storage/Store.hpp>
#include <mutable/backend/Backend.hpp>
#include <functional>
using namespace m::storage;
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
#define ATTR extern "C" __attribute__((noinline, used))
ATTR uint64_t sx_stub_value_hash(const void*, Value) { return 5; }   // hash tables must give the same answer whatever the hash values are
ATTR uint64_t sx_stub_tuple_hash(const void*, const Tuple&) { return 5; }
struct Cell { bool null; int64_t v; }; using Row = std::vector<Cell>; using Rows = std::vector<Row>;
static Cell N() { return {true, 0}; } static Cell I(int64_t v) { return {false, v}; }
static int64_t bits(double d) { int64_t x; memcpy(&x, &d, 8); return x; } static double dbl(int64_t x) { double d; memcpy(&d, &x, 8); return d; }
static int64_t packed(const char *s) { int64_t x = 0; for (unsigned i = 0; i < 7 && s[i]; i++) x |= int64_t((unsigned char)s[i]) << (8 * i); return x; }
static std::string text(int64_t x) { std::string s; for (; x & 0xff; x = uint64_t(x) >> 8) s += char(x & 0xff); return s; }
static Cell cell(const Type *ty, const Tuple &t, unsigned i) { if (t.is_null(i)) return N(); if (ty->is_boolean()) return I(t[i].as_b()); if (ty->is_character_sequence()) return I(packed((const char*)t[i].as_p())); if (ty->is_float()) return I(bits(double(t[i].as_f()))); if (ty->is_double()) return I(bits(t[i].as_d())); return I(t[i].as_i()); }
struct Q : Env {
    std::unique_ptr<Backend> B; Schema S; Q() : B(C.create_backend(C.pool("Interpreter"))) { }
    void planner(const char *n) { C.default_plan_enumerator(C.pool(n)); }
    // a table with the given rows, in one of the data layouts
    Table &fill(const char *name, std::vector<std::pair<const char*, const PrimitiveType*>> cols, const Rows &rows, unsigned which = 0) { auto &T = table(name, cols); if (which) T.layout(PAXLayoutFactory(PAXLayoutFactory::NTuples, which)); else T.layout(RowLayoutFactory()); T.store(C.create_store(T)); 
        StoreWriter W(T.store()); Tuple t(W.schema()); std::vector<std::string> keep; for (auto &r : rows) { keep.clear(); for (unsigned i = 0; i < r.size(); i++) { auto ty = cols[i].second; if (r[i].null) t.null(i); else if (ty->is_boolean()) t.set(i, Value(bool(r[i].v))); else if (ty->is_character_sequence()) { t.not_null(i); strcpy((char*)t[i].as_p(), text(r[i].v).c_str()); } else if (ty->is_float()) t.set(i, Value(float(dbl(r[i].v)))); else if (ty->is_double()) t.set(i, Value(dbl(r[i].v))); else t.set(i, Value(r[i].v)); } W.append(t); } return T; }
    Rows run(const char *sql) { auto st = parse(sql); sx_check(st && is<ast::SelectStmt>(*st), "the query is accepted"); Rows out; execute_query(diag, as<const ast::SelectStmt>(*st), std::make_unique<CallbackOperator>([&](const Schema &S, const Tuple &t) { Row r; for (unsigned i = 0; i < S.num_entries(); i++) r.push_back(cell(S[i].type, t, i)); out.push_back(r); }), *B); sx_check(diag.num_errors() == 0, "no error"); return out; } };
static bool same(const Cell &a, const Cell &b) { return a.null == b.null && (a.null | (a.v == b.v)); }
static bool same(const Row &a, const Row &b) { if (a.size() != b.size()) return false; bool r = true; for (unsigned i = 0; i < a.size(); i++) r = r & same(a[i], b[i]); return r; }
// the same rows the same number of times
static void judge(const Rows &got, const Rows &want) { sx_check(got.size() == want.size(), "as many rows as the query defines"); for (auto &w : want) { unsigned a = 0, b = 0; for (auto &r : want) a += same(r, w); for (auto &r : got) b += same(r, w); sx_check(a == b, "each row as often as the query defines"); } sx_observe("rows", got.size()); sx_cover(got.size() ? "rows" : "no rows"); }
static void exactly(const Rows &got, const Rows &want) { sx_check(got.size() == want.size(), "as many rows as the query defines"); for (unsigned i = 0; i < want.size(); i++) sx_check(same(got[i], want[i]), "the rows in the order asked for"); sx_observe("rows", got.size()); sx_cover(got.size() ? "rows" : "no rows"); }
static Cell sym(const char *n, bool nullable = true) { if (nullable && sx_choose(2, "null")) return N(); return I(sx_make<int8_t>(n)); }
static Rows rows(unsigned n, unsigned c, int nullable = -1) { Rows r; for (unsigned i = 0; i < n; i++) { Row x; for (unsigned j = 0; j < c; j++) x.push_back(sym("v", nullable < 0 || (nullable >> j & 1))); r.push_back(x); } return r; }
// SQL's three truth values
enum T3 { F3, U3, T3_ }; static T3 t3(bool b) { return b ? T3_ : F3; } static T3 operator&&(T3 a, T3 b) { return a < b ? a : b; } static T3 operator||(T3 a, T3 b) { return a > b ? a : b; } static T3 operator!(T3 a) { return T3(2 - a); }
static T3 lt(Cell a, Cell b) { return a.null | b.null ? U3 : t3(a.v < b.v); } static T3 eq(Cell a, Cell b) { return a.null | b.null ? U3 : t3(a.v == b.v); } static T3 gt(Cell a, Cell b) { return lt(b, a); } static Cell plus(Cell a, Cell b) { return a.null | b.null ? N() : I(a.v + b.v); }
static std::vector<std::pair<const char*, const PrimitiveType*>> AB() { return {{"a", I4()}, {"b", I4()}}; } static std::vector<std::pair<const char*, const PrimitiveType*>> CD() { return {{"c", I4()}, {"d", I4()}}; }
static unsigned lay() { return sx_choose(2, "layout") * 2; }
// --- selection
struct Pred { const char *sql; T3 (*f)(Cell a, Cell b); };
static const Pred preds[] = {
    {"a < b", [](Cell a, Cell b) { return lt(a, b); }}, {"a = b", [](Cell a, Cell b) { return eq(a, b); }}, {"a != b", [](Cell a, Cell b) { return !eq(a, b); }}, {"a >= 7", [](Cell a, Cell) { return !lt(a, I(7)); }},
    {"a < 3 OR b < 3", [](Cell a, Cell b) { return lt(a, I(3)) || lt(b, I(3)); }}, {"a < 3 AND b < 3", [](Cell a, Cell b) { return lt(a, I(3)) && lt(b, I(3)); }}, {"NOT (a < b) AND b > -5", [](Cell a, Cell b) { return !lt(a, b) && gt(b, I(-5)); }},
    {"NOT (a = 1 AND b = 2)", [](Cell a, Cell b) { return !(eq(a, I(1)) && eq(b, I(2))); }}, {"a + b > 10 OR a = b OR b = 0", [](Cell a, Cell b) { return gt(plus(a, b), I(10)) || eq(a, b) || eq(b, I(0)); }}, {"ISNULL(a) OR b > 0", [](Cell a, Cell b) { return t3(a.null) || gt(b, I(0)); }},
    {"a = 1 OR NOT (b = 1)", [](Cell a, Cell b) { return eq(a, I(1)) || !eq(b, I(1)); }}, {"(a = 1 OR b = 1) AND (a = 2 OR b = 2)", [](Cell a, Cell b) { return (eq(a, I(1)) || eq(b, I(1))) && (eq(a, I(2)) || eq(b, I(2))); }}, {"TRUE", [](Cell, Cell) { return T3_; }}, {"FALSE", [](Cell, Cell) { return F3; }} };
SX_MAIN(filter) { Q q; q.planner("DPccp"); Rows R = rows(2, 2); q.fill("R", AB(), R, lay()); auto &p = preds[sx_choose(std::size(preds), "predicate")]; Rows want; for (auto &r : R) if (p.f(r[0], r[1]) == T3_) want.push_back(r); judge(q.run((std::string("SELECT a, b FROM R WHERE ") + p.sql + ";").c_str()), want); }
// --- projection
SX_MAIN(project) { Q q; q.planner("DPccp"); Rows R = rows(2, 2); q.fill("R", AB(), R, lay()); static const char *const ss[] = {"SELECT b, a FROM R;", "SELECT a + b, b - a FROM R;", "SELECT * FROM R;", "SELECT a, a + 1 AS x, a FROM R WHERE a > 0;", "SELECT R.b, -R.a, 7 FROM R;", "SELECT a < b, ISNULL(a), NOT (a = b) FROM R;", "SELECT x.b FROM R AS x;", "SELECT x.b, x.a FROM R AS x WHERE x.a > 0;"}; unsigned s = sx_choose(8, "query"); Rows want;
    auto tv = [](T3 t) { return t == U3 ? N() : I(t == T3_); };
    for (auto &r : R) { Cell a = r[0], b = r[1]; switch (s) { case 0: want.push_back({b, a}); break; case 1: want.push_back({plus(a, b), a.null | b.null ? N() : I(b.v - a.v)}); break; case 2: want.push_back({a, b}); break; case 3: if (gt(a, I(0)) == T3_) want.push_back({a, plus(a, I(1)), a}); break; case 4: want.push_back({b, a.null ? N() : I(-a.v), I(7)}); break; case 5: want.push_back({tv(lt(a, b)), I(a.null), tv(!eq(a, b))}); break; case 6: want.push_back({b}); break; default: if (gt(a, I(0)) == T3_) want.push_back({b, a}); } }
    judge(q.run(ss[s]), want); }
// --- joins of two tables
struct JPred { const char *sql; T3 (*f)(const Row &r, const Row &s); };
static const JPred jpreds[] = { {"a = c", [](const Row &r, const Row &s) { return eq(r[0], s[0]); }}, {"c = a AND d = b", [](const Row &r, const Row &s) { return eq(r[0], s[0]) && eq(r[1], s[1]); }}, {"a < c", [](const Row &r, const Row &s) { return lt(r[0], s[0]); }}, {"a = c AND b < d", [](const Row &r, const Row &s) { return eq(r[0], s[0]) && lt(r[1], s[1]); }}, {"a = c OR b = d", [](const Row &r, const Row &s) { return eq(r[0], s[0]) || eq(r[1], s[1]); }}, {"a != c", [](const Row &r, const Row &s) { return !eq(r[0], s[0]); }}, {"a = c AND b > 0 AND d > 0", [](const Row &r, const Row &s) { return eq(r[0], s[0]) && gt(r[1], I(0)) && gt(s[1], I(0)); }}, {"a + 1 = c", [](const Row &r, const Row &s) { return eq(plus(r[0], I(1)), s[0]); }}, {"a = c + d", [](const Row &r, const Row &s) { return eq(r[0], plus(s[0], s[1])); }}, {"a = b + c", [](const Row &r, const Row &s) { return eq(r[0], plus(r[1], s[0])); }}, {"NOT (a != c)", [](const Row &r, const Row &s) { return eq(r[0], s[0]); }}, {"NOT (a < c) AND b = d", [](const Row &r, const Row &s) { return !lt(r[0], s[0]) && eq(r[1], s[1]); }} };
static Row cat(const Row &r, const Row &s) { Row x = r; x.insert(x.end(), s.begin(), s.end()); return x; }
SX_MAIN(join) { Q q; q.planner("DPccp"); unsigned m = sx_choose(SX_THOROUGH ? 3 : 2, "rows of S") + 1; if (m > 2) m = 0; unsigned p = sx_choose(std::size(jpreds), "predicate"); int mask = p == 2 || p == 5 || p == 7 ? 1 : 3; Rows R = rows(2, 2, mask), S = rows(m, 2, mask & (p == 6 ? 1 : 3)); q.fill("R", AB(), R, 0); q.fill("S", CD(), S, 2); Rows want; for (auto &r : R) for (auto &s : S) if (jpreds[p].f(r, s) == T3_) want.push_back(cat(r, s)); judge(q.run((std::string("SELECT a, b, c, d FROM R, S WHERE ") + jpreds[p].sql + ";").c_str()), want); }
SX_MAIN(selfjoin) { Q q; q.planner("DPccp"); Rows R = rows(2, 2); q.fill("R", AB(), R, lay()); Rows want; bool e = sx_choose(2, "equi"); for (auto &r : R) for (auto &s : R) if ((e ? eq(r[0], s[1]) : lt(r[0], s[1])) == T3_) want.push_back({r[1], s[0]}); judge(q.run(e ? "SELECT x.b, y.a FROM R AS x, R AS y WHERE x.a = y.b;" : "SELECT x.b, y.a FROM R AS x, R AS y WHERE x.a < y.b;"), want); }
// --- joins of three tables, under several plan enumerators
SX_MAIN(join3) { Q q; static const char *const pe[] = {"DPccp", "GOO", "TDMinCutAGaT", "HeuristicSearch", "DPsize", "DPsub", "TDGOO", "LinearizedDP", "IKKBZ"}; q.planner(pe[sx_choose(9, "planner")]); Rows R = rows(1, 2, 1), S = rows(2, 2, 2), T = rows(1, 1, 0); q.fill("R", AB(), R, 0); q.fill("S", CD(), S, 2); q.fill("T", {{"e", I4()}}, T, 0); static const char *const ss[] = {"a = c AND d = e", "a = c AND a = e", "a < c AND d = e", "a = c AND d = e AND b = e"}; unsigned p = sx_choose(4, "query"); Rows want;
    for (auto &r : R) for (auto &s : S) for (auto &t : T) { T3 x; switch (p) { case 0: x = eq(r[0], s[0]) && eq(s[1], t[0]); break; case 1: x = eq(r[0], s[0]) && eq(r[0], t[0]); break; case 2: x = lt(r[0], s[0]) && eq(s[1], t[0]); break; default: x = eq(r[0], s[0]) && eq(s[1], t[0]) && eq(r[1], t[0]); } if (x == T3_) want.push_back({r[1], s[1], t[0]}); }
    judge(q.run((std::string("SELECT b, d, e FROM R, S, T WHERE ") + ss[p] + ";").c_str()), want); }
// --- grouping and aggregates
struct Agg { unsigned n = 0, nb = 0; int64_t sum = 0, min = 0, max = 0; void add(Cell c) { n++; if (c.null) return; if (!nb || c.v < min) min = c.v; if (!nb || c.v > max) max = c.v; nb++; sum += c.v; } };
SX_MAIN(group) { Q q; q.planner("DPccp"); Rows R = rows(3, 2); q.fill("R", AB(), R, 0); unsigned s = sx_choose(4, "query"); std::vector<std::pair<Row, Agg>> G; static const char *const ss[] = {"SELECT a, COUNT(*), COUNT(b), SUM(b), MIN(b), MAX(b) FROM R GROUP BY a;", "SELECT a, b, COUNT(*) FROM R GROUP BY a, b;", "SELECT a, COUNT(*) FROM R WHERE b > 0 GROUP BY a HAVING COUNT(*) > 1;", "SELECT COUNT(*) FROM R GROUP BY a;"};
    for (auto &r : R) { if (s == 2 && gt(r[1], I(0)) != T3_) continue; Row k = s == 1 ? r : Row{r[0]}; unsigned i = 0; for (; i < G.size(); i++) if (same(G[i].first, k)) break; if (i == G.size()) G.push_back({k, Agg()}); G[i].second.add(r[1]); }
    Rows want; for (auto &g : G) { Agg &x = g.second; Cell lo = x.nb ? I(x.min) : N(), hi = x.nb ? I(x.max) : N(); switch (s) { case 0: want.push_back({g.first[0], I(x.n), I(x.nb), I(x.sum), lo, hi}); break; case 1: want.push_back({g.first[0], g.first[1], I(x.n)}); break; case 2: if (x.n > 1) want.push_back({g.first[0], I(x.n)}); break; default: want.push_back({I(x.n)}); } }
    judge(q.run(ss[s]), want); }
SX_MAIN(aggregate) { Q q; q.planner("DPccp"); unsigned n = sx_choose(4, "rows"); Rows R = rows(n, 2, 2); q.fill("R", AB(), R, lay()); unsigned s = sx_choose(3, "query"); static const char *const ss[] = {"SELECT COUNT(*), COUNT(b), SUM(b), MIN(b), MAX(b) FROM R;", "SELECT COUNT(*), COUNT(b), SUM(b), MIN(b), MAX(b) FROM R WHERE a > 0;", "SELECT MAX(b) - MIN(b), COUNT(*) + 1 FROM R;"}; Agg x; for (auto &r : R) if (s != 1 || gt(r[0], I(0)) == T3_) x.add(r[1]);
    Cell lo = x.nb ? I(x.min) : N(), hi = x.nb ? I(x.max) : N(); if (s == 2) judge(q.run(ss[s]), {{x.nb ? I(x.max - x.min) : N(), I(x.n + 1)}}); else judge(q.run(ss[s]), {{I(x.n), I(x.nb), I(x.sum), lo, hi}}); }
static void near(Cell got, int64_t sum, unsigned n, const char *what) { if (!n) return; sx_check(!got.null, what); double d = dbl(got.v) * n - double(sum); sx_check(d < 1e-6 && d > -1e-6, what); }
SX_MAIN(average) { Q q; q.planner("DPccp"); Rows R; unsigned n = 1 + sx_choose(3, "rows"); for (unsigned i = 0; i < n; i++) R.push_back({I(sx_choose(2, "key")), sx_choose(2, "null") ? N() : I(sx_fork_value(sx_range(0, 5, "v", 3)))}); q.fill("R", AB(), R, lay()); Agg x, g[2]; for (auto &r : R) { x.add(r[1]); g[r[0].v].add(r[1]); }
    Rows got = q.run("SELECT AVG(b) FROM R;"); sx_check(got.size() == 1 && got[0].size() == 1, "one row"); near(got[0][0], x.sum, x.nb, "the mean of the values that are not NULL"); got = q.run("SELECT a, AVG(b) FROM R GROUP BY a;"); sx_check(got.size() == unsigned((g[0].n > 0) + (g[1].n > 0)), "a row for each group"); for (auto &r : got) { auto &k = g[r[0].v & 1]; near(r[1], k.sum, k.nb, "the mean of the group's values that are not NULL"); } sx_cover(x.nb == x.n ? "values" : "NULLs"); sx_observe("rows", got.size()); }
// --- order and limit
SX_MAIN(order) { Q q; q.planner("DPccp"); unsigned n = 3; bool nulls = sx_choose(2, "NULLs"); Rows R = rows(n, 2, nulls ? 1 : 0); q.fill("R", AB(), R, 0); unsigned s = sx_choose(6, "query"); static const char *const ss[] = {"SELECT a, b FROM R ORDER BY a;", "SELECT a, b FROM R ORDER BY a DESC;", "SELECT a, b FROM R ORDER BY a, b DESC;", "SELECT a, b FROM R ORDER BY b DESC, a;", "SELECT b, a FROM R ORDER BY a + b;", "SELECT b FROM R ORDER BY a;"}; Rows got = q.run(ss[s]);
    if (s == 5) { Rows want; for (auto &r : R) want.push_back({r[1]}); judge(got, want); return; } if (s == 4) for (auto &r : got) std::swap(r[0], r[1]); judge(got, R);
    for (unsigned i = 0; i + 1 < got.size(); i++) { Row &x = got[i], &y = got[i + 1]; auto le = [](Cell a, Cell b) { return a.null | b.null ? true : a.v <= b.v; }; switch (s) { case 0: sx_check(le(x[0], y[0]), "ascending"); break; case 1: sx_check(le(y[0], x[0]), "descending"); break; case 2: sx_check(le(x[0], y[0]) && (!same(x[0], y[0]) || le(y[1], x[1])), "by the first key, then the second descending"); break; case 3: sx_check(le(y[1], x[1]) && (!same(x[1], y[1]) || le(x[0], y[0])), "by the first key descending, then the second"); break; default: sx_check(le(plus(x[0], x[1]), plus(y[0], y[1])), "ascending by the expression"); } }
    // NULLs stand together, at one end
    if (s < 3) { unsigned changes = 0; for (unsigned i = 0; i + 1 < got.size(); i++) changes += got[i][0].null != got[i + 1][0].null; sx_check(changes <= 1, "NULLs together"); } }
SX_MAIN(limit) { Q q; q.planner("DPccp"); unsigned n = 3; Rows R = rows(n, 1, 0); Rows R2; for (unsigned i = 0; i < n; i++) R2.push_back({R[i][0], I(int64_t(i))}); q.fill("R", AB(), R2, lay()); unsigned lim = sx_choose(5, "limit"), off = sx_choose(5, "offset"); bool by = sx_choose(2, "ordered"); std::string s = std::string("SELECT a, b FROM R") + (by ? " ORDER BY a" : "") + " LIMIT " + char('0' + lim) + (off ? std::string(" OFFSET ") + char('0' + off) : "") + ";"; Rows got = q.run(s.c_str());
    unsigned want = off >= n ? 0 : (n - off < lim ? n - off : lim); sx_check(got.size() == want, "as many rows as LIMIT and OFFSET leave"); unsigned seen = 0; for (auto &r : got) { unsigned i = r[1].v; sx_check(i < n && !(seen >> i & 1), "rows of the table, none twice"); seen |= 1u << i; sx_check(same(r, R2[i]), "the row as stored"); }
    if (by) for (unsigned i = 0; i < got.size(); i++) { unsigned less = 0, leq = 0; for (auto &r : R2) { less += r[0].v < got[i][0].v; leq += r[0].v <= got[i][0].v; } sx_check(less <= off + i && off + i < leq, "the row at its rank"); } sx_observe("rows", got.size()); sx_cover(want ? "rows" : "no rows"); }
// --- nested queries
SX_MAIN(nested) { Q q; q.planner("DPccp"); Rows R = rows(2, 2, 1), S = rows(1, 2, 1); q.fill("R", AB(), R, 0); q.fill("S", CD(), S, 0); unsigned s = sx_choose(6, "query"); Rows want; static const char *const ss[] = {"SELECT x.b FROM (SELECT a, b FROM R WHERE a > 0) AS x WHERE x.b < 5;", "SELECT x.u, S.d FROM (SELECT a + 1 AS u FROM R) AS x, S WHERE x.u = S.c;", "SELECT x.n FROM (SELECT a, COUNT(*) AS n FROM R GROUP BY a) AS x WHERE x.n > 1;", "SELECT COUNT(*) FROM (SELECT a FROM R LIMIT 1) AS x;", "SELECT x.n, S.d FROM (SELECT a, COUNT(*) AS n FROM R GROUP BY a) AS x, S WHERE x.a = S.c;", "SELECT SUM(x.m) FROM (SELECT b, COUNT(a) AS m FROM R GROUP BY b) AS x;"};
    switch (s) { case 0: for (auto &r : R) if ((gt(r[0], I(0)) && lt(r[1], I(5))) == T3_) want.push_back({r[1]}); break; case 1: for (auto &r : R) for (auto &t : S) if (eq(plus(r[0], I(1)), t[0]) == T3_) want.push_back({plus(r[0], I(1)), t[1]}); break; case 2: if (same(R[0][0], R[1][0])) want.push_back({I(2)}); break; case 3: want.push_back({I(1)}); break; case 5: want.push_back({I(!R[0][0].null + !R[1][0].null)}); break;
        default: { bool one = same(R[0][0], R[1][0]); for (unsigned i = 0; i < (one ? 1 : 2); i++) for (auto &t : S) if (eq(R[i][0], t[0]) == T3_) want.push_back({I(one ? 2 : 1), t[1]}); } }
    judge(q.run(ss[s]), want); }
// --- other types as keys
static Cell val(unsigned k, bool nullable) { if (nullable && sx_choose(2, "null")) return N(); switch (k) { case 0: { char s[4] = {}; unsigned n = sx_choose(3, "length"); for (unsigned i = 0; i < n; i++) s[i] = "ab"[sx_choose(2, "char")]; return I(packed(s)); } case 1: return I(sx_bool("bool")); case 2: case 3: { static const double ds[] = {0.0, -0.0, 1.5, -2.25}; return I(bits(ds[sx_choose(4, "number")])); } case 4: return I(sx_make<int32_t>("date")); case 5: return I(sx_range(0, 200, "cents", 8)); default: return I(sx_make<int64_t>("i8")); } }
static bool eqk(unsigned k, Cell a, Cell b) { return !a.null & !b.null && (k == 2 || k == 3 ? dbl(a.v) == dbl(b.v) : a.v == b.v); }
static const PrimitiveType *ktype(unsigned k, unsigned j) { switch (k) { case 0: return j ? VC(3) : CH(3); case 1: return BO(); case 2: return DB(); case 3: return FL(); case 4: return DA(); case 5: return DE(5, 2); default: return I8(); } }
SX_MAIN(keys_join) { Q q; q.planner("DPccp"); unsigned k = sx_choose(7, "type"), j = k == 0 ? sx_choose(2, "varying") : 0; Cell a = val(k, true), b = val(k, false), c = val(k, true); q.fill("R", {{"a", ktype(k, j)}, {"b", I4()}}, {{a, I(1)}, {b, I(2)}}, 0); q.fill("S", {{"c", ktype(k, j)}, {"d", I4()}}, {{c, I(3)}}, 0); Rows want; if (eqk(k, a, c)) want.push_back({I(1), I(3)}); if (eqk(k, b, c)) want.push_back({I(2), I(3)}); judge(q.run("SELECT b, d FROM R, S WHERE a = c;"), want); }
SX_MAIN(keys_group) { Q q; q.planner("DPccp"); unsigned k = sx_choose(7, "type"), j = k == 0 ? sx_choose(2, "varying") : 0; Rows R = {{val(k, true), I(1)}, {val(k, true), I(2)}}; q.fill("R", {{"a", ktype(k, j)}, {"b", I4()}}, R, 0); bool one = (R[0][0].null & R[1][0].null) || eqk(k, R[0][0], R[1][0]); Rows want; if (one) want.push_back({R[0][0], I(3)}); else for (auto &r : R) want.push_back({r[0], r[1]}); Rows got = q.run("SELECT a, SUM(b) FROM R GROUP BY a;"); for (auto &r : got) if (one && eqk(k, r[0], R[0][0])) r[0] = R[0][0]; judge(got, want); }
// keys of any type in ORDER BY
static bool before(unsigned k, Cell a, Cell b) { switch (k) { case 0: { uint64_t x = __builtin_bswap64(a.v), y = __builtin_bswap64(b.v); return x < y; } case 2: case 3: return dbl(a.v) < dbl(b.v); default: return a.v < b.v; } }
SX_MAIN(keys_order) { Q q; q.planner("DPccp"); unsigned k = sx_choose(7, "type"), j = k == 0 ? sx_choose(2, "varying") : 0; Rows R = {{val(k, true), I(1)}, {val(k, true), I(2)}}; q.fill("R", {{"a", ktype(k, j)}, {"b", I4()}}, R, 0); bool desc = sx_choose(2, "descending"); Rows got = q.run(desc ? "SELECT a, b FROM R ORDER BY a DESC;" : "SELECT a, b FROM R ORDER BY a;"); judge(got, R); Cell x = got[desc][0], y = got[!desc][0]; if (!x.null && !y.null) sx_check(!before(k, y, x), "in order"); }
// comparing attributes and constants of any type
SX_MAIN(keys_filter) { Q q; q.planner("DPccp"); unsigned k = sx_choose(5, "type"); static const unsigned kk[] = {0, 1, 2, 3, 6}; k = kk[k]; Rows R = {{val(k, true), val(k, true), I(1)}}; q.fill("R", {{"a", ktype(k, 0)}, {"b", ktype(k, 1)}, {"c", I4()}}, R, lay()); unsigned o = sx_choose(k == 1 ? 2 : 6, "operator"); static const char *const os[] = {"=", "!=", "<", "<=", ">", ">="}; bool e = eqk(k, R[0][0], R[0][1]), l = before(k, R[0][0], R[0][1]), g = before(k, R[0][1], R[0][0]), r = false; switch (o) { case 0: r = e; break; case 1: r = !e; break; case 2: r = l; break; case 3: r = l | e; break; case 4: r = g; break; default: r = g | e; } Rows want; if (!R[0][0].null && !R[0][1].null && r) want.push_back({I(1)}); judge(q.run((std::string("SELECT c FROM R WHERE a ") + os[o] + " b;").c_str()), want); }
SX_MAIN(mixed_join) { Q q; q.planner("DPccp"); unsigned k = sx_choose(4, "types"); Rows R, S, want; Cell a, c; bool e; switch (k) { case 0: a = I(sx_make<int8_t>("i")), c = I(sx_make<int64_t>("l")); q.fill("R", {{"a", I1()}}, {{a}}); q.fill("S", {{"c", I8()}}, {{c}}); e = a.v == c.v; break; case 1: a = I(sx_make<int8_t>("i")), c = I(bits(double(sx_make<int8_t>("d")))); q.fill("R", {{"a", I4()}}, {{a}}); q.fill("S", {{"c", DB()}}, {{c}}); e = double(a.v) == dbl(c.v); break; case 2: a = val(0, false), c = val(0, false); q.fill("R", {{"a", CH(3)}}, {{a}}); q.fill("S", {{"c", VC(4)}}, {{c}}); e = a.v == c.v; break; default: a = I(sx_make<int8_t>("i")), c = I(sx_range(0, 2000, "cents", 11)); q.fill("R", {{"a", I4()}}, {{a}}); q.fill("S", {{"c", DE(6, 2)}}, {{c}}); e = a.v * 100 == c.v; }
    if (e) want.push_back({a, c}); judge(q.run("SELECT a, c FROM R, S WHERE a = c;"), want); }
SX_MAIN(sums) { Q q; q.planner("DPccp"); unsigned k = sx_choose(4, "type"); bool g = sx_choose(2, "grouped"); const PrimitiveType *ty = k == 0 ? FL() : k == 1 ? DB() : k == 2 ? DE(5, 2) : I1(); Rows R; bool any = false; double sd = 0, lo = 0, hi = 0; int64_t si = 0, li = 0, hi_ = 0; for (unsigned i = 0; i < 2; i++) { if (sx_choose(2, "null")) { R.push_back({I(1), N()}); continue; } int64_t v = k == 3 ? (int64_t)sx_make<int8_t>("v") : (int64_t)sx_choose(3, "v") * 7 - 5; double d = double(v) / 2; if (k < 2) R.push_back({I(1), I(bits(d))}); else R.push_back({I(1), I(v)}); sd += d; si += v; if (!any || d < lo) lo = d; if (!any || d > hi) hi = d; if (!any || v < li) li = v; if (!any || v > hi_) hi_ = v; any = true; } q.fill("R", {{"a", I4()}, {"b", ty}}, R);
    Row want; if (k < 2) want = {I(bits(sd)), any ? I(bits(lo)) : N(), any ? I(bits(hi)) : N()}; else want = {I(si), any ? I(li) : N(), any ? I(hi_) : N()}; judge(q.run(g ? "SELECT SUM(b), MIN(b), MAX(b) FROM R GROUP BY a;" : "SELECT SUM(b), MIN(b), MAX(b) FROM R;"), {want}); }
// --- more rows than one block of the interpreter holds
static Rows many(unsigned n, unsigned at, Cell a) { Rows R; for (unsigned i = 0; i < n; i++) R.push_back({i == at ? a : I(int64_t(i % 5)), I(int64_t(i))}); return R; }
SX_MAIN(blocks) { static const unsigned ns[] = {63, 64, 65, 128, 130}; unsigned n = ns[sx_choose(5, "rows")]; Q q; q.planner("DPccp"); Cell a = I(sx_make<int8_t>("v")); unsigned ats[] = {0, n - 1}; unsigned at = ats[sx_choose(2, "where")]; Rows R = many(n, at, a), want; q.fill("R", AB(), R, lay()); unsigned s = sx_choose(6, "query"); static const char *const ss[] = {"SELECT a, b FROM R WHERE a = 3;", "SELECT b, a FROM R ORDER BY b DESC;", "SELECT b, COUNT(*) FROM R GROUP BY b;", "SELECT SUM(a), COUNT(*) FROM R;", "SELECT a, b FROM R LIMIT 40 OFFSET 40;", "SELECT a, COUNT(*) FROM R WHERE a < 5 GROUP BY a;"};
    int64_t sum = 0; for (auto &r : R) { sum += r[0].v; if (s == 0 && eq(r[0], I(3)) == T3_) want.push_back(r); if (s == 2) want.push_back({r[1], I(1)}); } if (s == 1) for (unsigned i = n; i-- > 0;) want.push_back({R[i][1], R[i][0]}); if (s == 3) want.push_back({I(sum), I(n)});
    Rows got = q.run(ss[s]); if (s == 4) { sx_check(got.size() == (n < 80 ? n - 40 : 40), "as many rows as LIMIT and OFFSET leave"); uint64_t seen[3] = {}; for (auto &r : got) { unsigned i = r[1].v; sx_check(i < n && !(seen[i / 64] >> (i % 64) & 1) && same(r, R[i]), "rows of the table, none twice"); seen[i / 64] |= 1ull << (i % 64); } sx_cover("rows"); return; }
    if (s == 5) { unsigned cnt[5] = {}, groups = 0, others = 0; bool neg = a.v < 0; for (auto &r : R) for (int k = 0; k < 5; k++) cnt[k] += r[0].v == k; sx_check(got.size() == 5u + neg, "a row for each group"); for (auto &g : got) { bool f = false; for (int k = 0; k < 5; k++) { f |= g[0].v == k; sx_check(g[0].v != k || g[1].v == cnt[k], "the group's size"); } groups += f; others += !f & (g[0].v == a.v) & (g[1].v == 1); } sx_check(groups == 5 && others == neg, "each group once"); sx_cover("rows"); return; }
    if (s == 2) { sx_check(got.size() == n, "a row for each group"); uint64_t seen[3] = {}; for (auto &r : got) { unsigned i = r[0].v; sx_check(i < n && !(seen[i / 64] >> (i % 64) & 1) && r[1].v == 1, "each group once"); seen[i / 64] |= 1ull << (i % 64); } sx_cover("rows"); return; } exactly(got, want); }
// a join whose rows fill more than one block
SX_MAIN(wide_join) { static const unsigned ns[] = {31, 64, 65, 130}; unsigned n = ns[sx_choose(4, "rows")]; Q q; q.planner("DPccp"); Cell a = I(sx_make<int8_t>("v")); Rows R; for (unsigned i = 0; i < n; i++) R.push_back({I(i % 40 == 7 ? 2 : 1), I(int64_t(i))}); Rows S = {{a, I(0)}, {I(1), I(1)}}; bool big = sx_choose(2, "big side"); q.fill(big ? "S" : "R", big ? CD() : AB(), big ? S : S); q.fill(big ? "R" : "S", big ? AB() : CD(), R); unsigned s = sx_choose(3, "query"); static const char *const ss[] = {"SELECT b, d FROM R, S WHERE a = c;", "SELECT b, d FROM R, S WHERE a = c LIMIT 20 OFFSET 70;", "SELECT b, d FROM R, S WHERE a < c;"};
    Rows got = q.run(ss[s]); unsigned total = 0; std::vector<unsigned> match(2 * n); for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < 2; j++) { int64_t l = big ? R[i][0].v : S[j][0].v, r = big ? S[j][0].v : R[i][0].v; match[2 * i + j] = s == 2 ? l < r : l == r; total += match[2 * i + j]; } unsigned want = total; if (s == 1) { want = total > 70 ? total - 70 : 0; want = want > 20 ? 20 : want; } sx_check(got.size() == want, "as many rows as the query defines");
    std::vector<unsigned> seen(2 * n); for (auto &r : got) { unsigned i = big ? r[0].v : r[1].v, j = big ? r[1].v : r[0].v; sx_check(i < n && j < 2 && match[2 * i + j] && !seen[2 * i + j]++, "pairs that match, each once"); } sx_cover("rows"); sx_observe("rows", got.size()); }
// --- longer statements: join, grouping, HAVING, ordering and LIMIT together
SX_MAIN(combined) { Q q; q.planner("DPccp"); Rows R = rows(2, 2, 1), S = rows(2, 2, 2); q.fill("R", AB(), R, 0); q.fill("S", CD(), S, 2); unsigned s = sx_choose(4, "query"); static const char *const ss[] = {"SELECT b, COUNT(d), SUM(d) FROM R, S WHERE a = c GROUP BY b;", "SELECT b, COUNT(*) AS n FROM R, S WHERE a < c GROUP BY b ORDER BY n DESC LIMIT 1;", "SELECT COUNT(*), MAX(d) FROM R, S WHERE a = c OR b = c;", "SELECT b, d FROM R, S WHERE a = c ORDER BY b, d DESC LIMIT 2 OFFSET 1;"};
    Rows J; for (auto &r : R) for (auto &t : S) { T3 x = s == 1 ? lt(r[0], t[0]) : s == 2 ? eq(r[0], t[0]) || eq(r[1], t[0]) : eq(r[0], t[0]); if (x == T3_) J.push_back(cat(r, t)); } std::vector<std::pair<Cell, Agg>> G; for (auto &r : J) { unsigned i = 0; for (; i < G.size(); i++) if (same(G[i].first, r[1])) break; if (i == G.size()) G.push_back({r[1], Agg()}); G[i].second.add(r[3]); }
    Rows got = q.run(ss[s]), want; switch (s) { case 0: for (auto &g : G) want.push_back({g.first, I(g.second.nb), I(g.second.sum)}); judge(got, want); break; case 2: { Agg x; for (auto &r : J) x.add(r[3]); judge(got, {{I(x.n), x.nb ? I(x.max) : N()}}); break; }
        case 1: { sx_check(got.size() == (G.size() ? 1 : 0), "one row, if there is any"); if (got.empty()) { sx_cover("no rows"); break; } unsigned best = 0; bool found = false; for (auto &g : G) if (g.second.n > best) best = g.second.n; for (auto &g : G) found |= same(g.first, got[0][0]) & (g.second.n == best); sx_check(found && got[0][1].v == best, "a largest group"); sx_cover("rows"); break; }
        default: { unsigned n = J.size() <= 1 ? 0 : J.size() == 2 ? 1 : 2; sx_check(got.size() == n, "as many rows as LIMIT and OFFSET leave"); for (unsigned i = 0; i < n; i++) { unsigned less = 0, leq = 0, there = 0; for (auto &r : J) { Cell b = r[1], d = r[3], gb = got[i][0], gd = got[i][1]; auto key = [](Cell b, Cell d) { return b.v * 1000 - (d.null ? 500 : d.v); }; less += key(b, d) < key(gb, gd); leq += key(b, d) <= key(gb, gd); there += same(b, gb) & same(d, gd); } sx_check(there > 0 && less <= i + 1 && i + 1 < leq, "the row at its rank"); } sx_cover(n ? "rows" : "no rows"); } } }
// the same prepared data queried again: a query leaves nothing behind that changes the next
SX_MAIN(repeated) { Q q; q.planner("DPccp"); Rows R = rows(2, 2, 2); q.fill("R", AB(), R, 0); static const char *const ss[] = {"SELECT a, COUNT(b) FROM R GROUP BY a;", "SELECT a, b FROM R ORDER BY a LIMIT 1;", "SELECT x.a, y.b FROM R AS x, R AS y WHERE x.a = y.b;", "SELECT SUM(b) FROM R WHERE a > 0;"}; unsigned s = sx_choose(4, "query"), t = sx_choose(4, "in between"); Rows one = q.run(ss[s]); q.run(ss[t]); Rows two = q.run(ss[s]); judge(two, one); }
// --- statements whose answer is known to be wrong: see known_findings.jsonl
SX_MAIN(cross) { Q q; static const char *const pe[] = {"DPccp", "GOO", "DPsize", "DPsub", "TDMinCutAGaT", "HeuristicSearch"}; q.planner(pe[sx_choose(6, "planner")]); Rows R = rows(1, 2, 0), S = rows(1, 2, 0); q.fill("R", AB(), R); q.fill("S", CD(), S); judge(q.run("SELECT a, c FROM R, S;"), {{R[0][0], S[0][0]}}); }
SX_MAIN(key_aggregate) { Q q; q.planner("DPccp"); Rows R = rows(1, 2, 0); q.fill("R", AB(), R); judge(q.run("SELECT a, SUM(a) FROM R GROUP BY a;"), {{R[0][0], R[0][0]}}); }
SX_MAIN(subquery) { Q q; q.planner("DPccp"); Rows R = rows(1, 2, 0), S = rows(1, 2, 0); q.fill("R", AB(), R); q.fill("S", CD(), S); Rows want; unsigned s = sx_choose(3, "query"); if (s == 0) want.push_back({R[0][0], I(1)}); else if (R[0][0].v == S[0][0].v) want.push_back({R[0][0]}); judge(q.run(s == 0 ? "SELECT a, (SELECT COUNT(*) FROM S) FROM R;" : s == 1 ? "SELECT a FROM R WHERE a = (SELECT MAX(c) FROM S);" : "SELECT a FROM R WHERE a = (SELECT MIN(S.c) FROM S);"), want); }
