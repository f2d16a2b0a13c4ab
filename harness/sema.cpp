// C07: semantic analysis against an independent statement of the typing, naming and clause rules
#include "sqlenv.hpp"
using namespace m::ast; using S = std::string;
extern "C" __attribute__((used, noinline)) uint64_t sx_stub_hash(const char *s) { uint64_t n = 0; while (s[n]) n++; return n; }   // stand in for the string hash
extern "C" __attribute__((used, noinline)) uint64_t sx_stub_hashn(const char *s, size_t l) { uint64_t n = 0; while (n < l && s[n]) n++; return n; }
enum { ERR, NONE, BOOL, CHAR, DATE, DATETIME, INT, FLT, DBL, DEC };
struct Ty { int k; bool v = false; uint64_t len = 0; unsigned p = 0, s = 0; bool num() const { return k >= INT; } };
static const Type *make(const Ty &t) { auto c = t.v ? Type::TY_Vector : Type::TY_Scalar; switch (t.k) { case ERR: return Type::Get_Error(); case NONE: return Type::Get_None(); case BOOL: return Type::Get_Boolean(c); case CHAR: return Type::Get_Char(c, t.len); case DATE: return Type::Get_Date(c); case DATETIME: return Type::Get_Datetime(c); case INT: return Type::Get_Integer(c, t.p); case FLT: return Type::Get_Float(c); case DBL: return Type::Get_Double(c); default: return Type::Get_Decimal(c, t.p, t.s); } }
static const Numeric *join(const Ty &a, const Ty &b) { return arithmetic_join(as<const Numeric>(make(a)), as<const Numeric>(make(b))); } // C12 decides the join itself
static Ty of(const Numeric *n) { bool v = n->is_vectorial(); switch (n->kind) { case Numeric::N_Int: return {INT, v, 0, n->precision}; case Numeric::N_Float: return {n->precision == 32 ? FLT : DBL, v}; default: return {DEC, v, 0, n->precision, n->scale}; } }
// operators are tokens whose type is symbolic; the statement is parsed with + and the token replaced
static bool arith(TokenType o) { return (o == TK_PLUS) | (o == TK_MINUS) | (o == TK_ASTERISK) | (o == TK_SLASH) | (o == TK_PERCENT); }
static bool order(TokenType o) { return (o == TK_LESS) | (o == TK_LESS_EQUAL) | (o == TK_GREATER) | (o == TK_GREATER_EQUAL); }
static bool equal(TokenType o) { return (o == TK_EQUAL) | (o == TK_BANG_EQUAL); }
static bool logic(TokenType o) { return (o == TK_And) | (o == TK_Or); }
static TokenType binop(const char *n) { TokenType o = TokenType(sx_range(0, TK_BACKSLASH - 1, n, 8)); sx_assume(arith(o) | order(o) | equal(o) | logic(o) | (o == TK_Like) | (o == TK_DOTDOT)); return o; }
static TokenType unop(const char *n) { TokenType o = TokenType(sx_range(0, TK_BACKSLASH - 1, n, 8)); sx_assume((o == TK_PLUS) | (o == TK_MINUS) | (o == TK_TILDE) | (o == TK_Not)); return o; }
static void set(const Expr *e, TokenType o) { const_cast<Expr*>(e)->tok.type = o; }
static Ty binary(TokenType op, const Ty &a, const Ty &b) {
    if (a.k == ERR || b.k == ERR) return {ERR}; bool v = a.v || b.v; bool fp = a.k == FLT || a.k == DBL || b.k == FLT || b.k == DBL;
    if (arith(op)) { if (!a.num() || !b.num()) return {ERR}; if (fp && op == TK_PERCENT) return {ERR}; return of(join(a, b)); }
    if (op == TK_DOTDOT) { if (a.k != CHAR || b.k != CHAR) return {ERR}; return {CHAR, v, a.len + b.len}; }
    if (op == TK_Like) { if (a.k != CHAR || b.k != CHAR) return {ERR}; return {BOOL, v}; }
    if (logic(op)) { if (a.k != BOOL || b.k != BOOL) return {ERR}; return {BOOL, v}; }
    if (a.k == NONE || (a.k == BOOL && order(op))) return {ERR}; if (a.num() ? !b.num() : a.k != b.k) return {ERR}; return {BOOL, v}; }
static Ty unary(TokenType op, const Ty &a) { if (a.k == ERR) return {ERR}; if (op == TK_Not ? a.k != BOOL : !a.num()) return {ERR}; return a; }
struct Opd { const char *text; Ty ty; };
static uint64_t g_n;
static std::vector<Opd> operands() { return {{"b", {BOOL, true}}, {"c", {CHAR, true, g_n}}, {"d", {DATE, true}}, {"dt", {DATETIME, true}}, {"i1", {INT, true, 0, 1}}, {"i2", {INT, true, 0, 2}}, {"i4", {INT, true, 0, 4}}, {"i8", {INT, true, 0, 8}}, {"f", {FLT, true}}, {"g", {DBL, true}}, {"e", {DEC, true, 0, 5, 2}}, {"h", {DEC, true, 0, 12, 6}},
    {"1", {INT, false, 0, 4}}, {"3000000000", {INT, false, 0, 8}}, {"1.5", {DBL}}, {"\"ab\"", {CHAR, false, 2}}, {"d'2020-01-31'", {DATE}}, {"d'2020-01-31 10:20:30'", {DATETIME}}, {"TRUE", {BOOL}}, {"NULL", {NONE}}, {"nowhere", {ERR}}}; }
struct W : Env { W(bool any = false) { g_n = any ? 1 + sx_sym(8, "len") : 7; table("T", {{"b", BO()}, {"c", CH(g_n)}, {"d", DA()}, {"dt", DT()}, {"i1", I1()}, {"i2", I2()}, {"i4", I4()}, {"i8", I8()}, {"f", FL()}, {"g", DB()}, {"e", DE(5, 2)}, {"h", DE(12, 6)}}); }
    std::unique_ptr<Stmt> st; bool ok = false;
    // parses, which must succeed, and analyzes the statement
    void run(const S &s) { diag.clear(); std::istringstream in(s); Lexer lexer(diag, C.get_pool(), "-", in); Parser parser(lexer); st = parser.parse_Stmt(); sx_check(diag.num_errors() == 0, "the statement is syntactically fine"); Sema sema(diag); auto cmd = sema.analyze(std::unique_ptr<Command>(std::move(st))); ok = diag.num_errors() == 0; sx_check(ok == bool(cmd), "a command comes out exactly when there is no error"); sx_check(ok || !err.str().empty(), "errors are explained"); if (ok) sx_cover("accepted"); else sx_cover("rejected"); cmd_ = std::move(cmd); }
    const Expr *item() { auto &s = as<const SelectStmt>(static_cast<const Stmt&>(*st)); auto &c = as<const SelectClause>(*s.select); return c.select[0].first.get(); }
    std::unique_ptr<DatabaseCommand> cmd_; };
// analyzes an expression in the SELECT clause, whose operators `put` replaces; its type, or the error type
template<class F> static const Type *typed(W &w, const S &e, F put) {
    w.diag.clear(); std::istringstream in("SELECT " + e + " FROM T;"); Lexer lexer(w.diag, w.C.get_pool(), "-", in); Parser parser(lexer); w.st = parser.parse_Stmt(); sx_check(w.diag.num_errors() == 0, "the statement is syntactically fine"); put(w.item());
    Sema sema(w.diag); sema(*w.st); bool ok = w.diag.num_errors() == 0; auto x = w.item(); sx_check(x->has_type(), "every expression has a type afterwards"); sx_check(x->type()->is_error() == !ok, "the expression is erroneous exactly when an error is reported"); if (ok) sx_cover("accepted"); else sx_cover("rejected"); return x->type(); }
static const Type *typed(W &w, const S &e) { return typed(w, e, [](const Expr*) {}); }
static const char *const SAME = "the type of the expression is what the typing rules give";
static const BinaryExpr &bin(const Expr *e) { return as<const BinaryExpr>(*e); }
static const UnaryExpr &un(const Expr *e) { return as<const UnaryExpr>(*e); }
SX_MAIN(operators) { W w; auto os = operands(); auto a = os[sx_choose(os.size(), "a")], b = os[sx_choose(os.size(), "b")]; TokenType op = binop("op"); auto got = typed(w, S(a.text) + " + " + b.text, [&](auto x) { set(x, op); }); Ty t = binary(op, a.ty, b.ty); sx_check(got == make(t), SAME); if (t.k != ERR && a.ty.num()) sx_check(bin(w.item()).common_operand_type == join(a.ty, b.ty), "numeric operands are brought to their common type"); }
// CHAR attributes of any length
SX_MAIN(strings) { W w(true); auto os = operands(); Opd c = os[1], o = os[sx_choose(2, "constant") ? 15 : 1]; bool swap = sx_choose(2, "swap"); TokenType op = binop("op"), op2 = TK_PLUS; bool again = sx_choose(2, "again"); S e = S(swap ? o.text : c.text) + " + " + (swap ? c.text : o.text);
    const Type *got; if (again) { op2 = binop("op2"); got = typed(w, "(" + e + ") + c", [&](auto x) { set(x, op2); set(bin(x).lhs.get(), op); }); } else got = typed(w, e, [&](auto x) { set(x, op); });
    Ty t = swap ? binary(op, o.ty, c.ty) : binary(op, c.ty, o.ty); if (again) t = binary(op2, t, c.ty); sx_check(got == make(t), SAME); }
static Opd few(std::vector<Opd> &os, const char *n) { static const char *const F[] = {"b", "c", "i4", "g", "1", "NULL", "nowhere"}; const char *f = F[sx_choose(7, n)]; for (auto &o : os) if (!strcmp(o.text, f)) return o; return os[0]; }
// two operators
SX_MAIN(nested) { W w; auto os = operands(); auto a = few(os, "a"), b = few(os, "b"); TokenType op = binop("op"), o2; S e = S("(") + a.text + " + " + b.text + ")"; const Type *got; Ty t;
    if (sx_choose(2, "outer")) { auto c = few(os, "c"); o2 = binop("op2"); bool left = sx_choose(2, "left"); got = left ? typed(w, e + " + " + c.text, [&](auto x) { set(x, o2); set(bin(x).lhs.get(), op); }) : typed(w, S(c.text) + " + " + e, [&](auto x) { set(x, o2); set(bin(x).rhs.get(), op); }); t = binary(op, a.ty, b.ty); t = left ? binary(o2, t, c.ty) : binary(o2, c.ty, t); }
    else { o2 = unop("op2"); got = typed(w, "-" + e, [&](auto x) { set(x, o2); set(un(x).expr.get(), op); }); t = unary(o2, binary(op, a.ty, b.ty)); }
    sx_check(got == make(t), SAME); }
SX_MAIN(unaries) { W w; auto os = operands(); auto a = os[sx_choose(os.size(), "a")]; TokenType u = unop("u"), v = unop("v"); bool two = sx_choose(2, "two"); auto got = two ? typed(w, S("-(-") + a.text + ")", [&](auto x) { set(x, v); set(un(x).expr.get(), u); }) : typed(w, S("-") + a.text, [&](auto x) { set(x, u); }); Ty t = unary(u, a.ty); if (two) t = unary(v, t); sx_check(got == make(t), SAME); }
static const char *const FNS[] = {"MIN", "MAX", "SUM", "AVG", "COUNT", "ISNULL", "NOSUCH"};
static Ty call(unsigned f, const std::vector<Ty> &as) {
    if (f == 6) return {ERR}; if (f == 4) { if (as.size() > 1) return {ERR}; return {INT, false, 0, 8}; } if (as.size() != 1) return {ERR}; Ty a = as[0];
    if (f == 5) { if (a.k == ERR || a.k == NONE) return {ERR}; return {BOOL, a.v}; }
    if (!a.num()) return {ERR}; if (f == 3) return {DBL}; if (f < 2) { a.v = false; return a; }
    switch (a.k) { case INT: return {INT, false, 0, 8}; case DEC: return {DEC, false, 0, Numeric::MAX_DECIMAL_PRECISION, a.s}; default: return {DBL}; } }
SX_MAIN(functions) { W w; auto os = operands(); unsigned f = sx_choose(7, "f"), n = sx_choose(3, "args"); S e = S(FNS[f]) + "("; std::vector<Ty> as; for (unsigned i = 0; i < n; i++) { auto o = n == 2 ? few(os, "arg") : os[sx_choose(os.size(), "arg")]; if (n == 2) sx_assume(o.ty.k != ERR); if (i) e += ", "; e += o.text; as.push_back(o.ty); } e += ")"; Ty t = call(f, as); if (n && f == 4 && as[0].k == ERR) return; // an unknown attribute is reported whatever the function makes of it
    sx_check(typed(w, e) == make(t), SAME); }
// only names can be called
SX_MAIN(callees) { W w; static const char *const CS[] = {"1(2)", "(i4 + 1)(2)", "\"SUM\"(i4)", "SUM(i4)(1)", "T.SUM(i4)", "NULL()", "(SELECT 1)(2)"}; sx_check(typed(w, CS[sx_choose(7, "callee")]) == Type::Get_Error(), "only a name can be called"); }
// --- constants
static char digit(const char *n) { return '0' + sx_range(0, 9, n, 8); }
static void typed_const(W &w, const S &text, const Ty &t) { sx_check(typed(w, text) == make(t), "the constant has the type its value calls for"); }
SX_MAIN(dates) { W w; bool time = sx_choose(2, "time"), bc = sx_choose(2, "before Christ"); char t[32]; strcpy(t, "2020-01-02 03:04:05"); auto two = [&](unsigned i) { t[i] = digit("digit"); t[i + 1] = digit("digit"); return (t[i] - '0') * 10 + (t[i + 1] - '0'); }; int y = 2020, m = 1, d = 2, h = 3, mi = 4, s = 5;
    if (!time || sx_choose(2, "part")) { if (sx_choose(2, "year")) { y = two(0) * 100; y += two(2); } else { m = two(5); d = two(8); } } else { h = two(11); mi = two(14); s = two(17); }
    if (!time) t[10] = 0; bool ok = (y != 0) & (m >= 1) & (m <= 12) & (d >= 1) & (d <= 31) & ((m != 2) | (d <= 29)) & (((m != 4) & (m != 6) & (m != 9) & (m != 11)) | (d <= 30)) & (h <= 23) & (mi <= 59) & (s <= 59);
    auto got = typed(w, S("d'") + (bc ? "-" : "") + t + "'"); sx_check(got == (ok ? make({time ? DATETIME : DATE}) : make({ERR})), "a date is accepted exactly when it is one"); }
SX_MAIN(integers) { W w; static const struct { const char *pre; unsigned base; uint64_t v; } P[] = {{"214748", 10, 214748}, {"4294", 10, 4294}, {"", 10, 0}, {"0x7FFFF", 16, 0x7FFFF}, {"0x8000", 16, 0x8000}, {"01777777", 8, 01777777}, {"0", 8, 0}, {"922337203685477", 10, 922337203685477}};
    auto &p = P[sx_choose(8, "prefix")]; unsigned n = 1 + sx_choose(4, "digits"); S t = p.pre; uint64_t v = p.v; for (unsigned i = 0; i < n; i++) { char c = '0' + sx_range(0, p.base == 8 ? 7 : 9, "digit", 8); if (p.base == 10 && t.empty()) sx_assume(c != '0'); t += c; v = v * p.base + (c - '0'); }
    auto got = typed(w, t); bool small = v <= 0x7FFFFFFF; sx_cover(small ? "32 bits" : "64 bits"); sx_check(got == make({INT, false, 0, small ? 4u : 8u}), "an integer constant has the smallest type of 4 or 8 bytes that holds it"); }
// --- names
struct Src { const char *text, *name; const char *const *cols; bool bad; };
static const char *const RC[] = {"a", "b", nullptr}, *const SC[] = {"a", "c", nullptr}, *const NC[] = {"z", "b", nullptr}, *const NA[] = {"b", "z", nullptr}, *const QC[] = {"u", nullptr}, *const NONE_[] = {nullptr};
static const Src SRC[] = {{"R", "R", RC}, {"S", "S", SC}, {"R AS S", "S", RC}, {"S AS R", "R", SC}, {"R AS N", "N", RC}, {"(SELECT a AS z, b FROM R) AS N", "N", NC}, {"(SELECT b, a AS z FROM R AS S) AS R", "R", NA}, {"(SELECT 1 AS u) AS S", "S", QC}, {"X", "X", NONE_, true}};
static const char *const TBL[] = {"", "R", "S", "N", "X"}, *const ATT[] = {"a", "b", "c", "z", "u", "q"};
static bool has(const Src &s, const char *a) { for (auto c = s.cols; *c; c++) if (!strcmp(*c, a)) return true; return false; }
// the number of ways a name can be resolved; -1: the source is unknown
static int ways(const Src **f, unsigned n, const char *t, const char *a) { int k = 0; bool known = !*t; for (unsigned i = 0; i < n; i++) if (!*t || !strcmp(t, f[i]->name)) { known = true; k += has(*f[i], a); } return known ? k : -1; }
SX_MAIN(names) { Env e; e.table("R", {{"a", I4()}, {"b", I2()}}); e.table("S", {{"a", I8()}, {"c", BO()}}); const Src *f[2]; unsigned n = 1 + sx_choose(2, "sources"); S from; bool ok = true; for (unsigned i = 0; i < n; i++) { f[i] = &SRC[sx_choose(std::size(SRC), "source")]; from += (i ? ", " : "") + S(f[i]->text); ok &= !f[i]->bad; } if (n == 2 && !strcmp(f[0]->name, f[1]->name)) ok = false;
    const char *t = TBL[sx_choose(5, "table")], *a = ATT[sx_choose(6, "attribute")]; S d = *t ? S(t) + "." + a : S(a); unsigned where = sx_choose(4, "clause"); S q = "SELECT " + (where == 0 ? d : S("1")) + " FROM " + from; if (where == 1) q += " WHERE " + d + " = " + d; if (where == 2) q += " GROUP BY " + d; if (where == 3) q += " ORDER BY " + d;
    int k = ways(f, n, t, a);
    ok = ok && k == 1; auto st = e.parse(q + ";"); sx_check(bool(st) == ok, "a name is accepted exactly when it denotes one attribute of one source"); sx_cover(ok ? "accepted" : "rejected"); sx_check(ok || !e.err.str().empty(), "errors are explained");
    if (st && where == 0) { auto &c = as<const SelectClause>(*as<const SelectStmt>(static_cast<const Stmt&>(*st)).select); auto &x = as<const Designator>(*c.select[0].first); const Type *want = !strcmp(a, "c") ? (const Type*)BO() : !strcmp(a, "b") ? I2() : !strcmp(a, "u") ? I4() : !strcmp(a, "z") ? I4() : nullptr; if (want) sx_check(x.type() == want, "a name has the type of what it denotes"); for (unsigned i = 0; i < n; i++) if ((!*t || !strcmp(t, f[i]->name)) && has(*f[i], a)) sx_check(x.table_name.text == e.C.pool(f[i]->name), "a name refers to its source"); } }

// --- clauses
struct X { const char *text; char name; bool agg, boolean; };   // an expression mentions a name or none
static const X XS[] = {{"g", 'g'}, {"v", 'v'}, {"b", 'b', false, true}, {"g + 1", 'g'}, {"v = 1", 'v', false, true}, {"g = 1", 'g', false, true}, {"SUM(v)", 'v', true}, {"SUM(v) = 1", 'v', true, true}, {"1", 0}, {"TRUE", 0, false, true}, {"k", 'k'}, {"ISNULL(v)", 'v', false, true}, {"s", 's'}, {"q", 'q'}};
struct Gr { const char *text; const char *keys; bool ok; bool kbool; };
static const Gr GS[] = {{"", "", true}, {" GROUP BY g", "g", true}, {" GROUP BY g, v", "gv", true}, {" GROUP BY g + 1 AS k", "k", true}, {" GROUP BY b, g AS k", "bk", true}, {" GROUP BY v = 1 AS k", "k", true, true}, {" GROUP BY SUM(v)", "", false}, {" GROUP BY 1", "", false}, {" GROUP BY q", "", false}, {" GROUP BY g, g", "!", true}};
struct Cl { const Gr *g; bool grouped, selected; const X *item; bool alias; bool scalar_item, bool_item; };
// how an expression is judged in a clause behind GROUP BY; 0: wrong, 1: scalar, 2: vectorial
static int judge(const X &x, const Cl &c, bool &boolean) {
    boolean = x.boolean; if (x.name == 'q') return 0;
    int n = 1; if (x.name == 0) n = 1;
    else if (c.selected && c.alias && x.name == 's') { n = c.scalar_item ? 1 : 2; boolean = c.bool_item; }
    else if (x.name == 's') return 0;
    else if (c.selected && !c.alias && c.item && strlen(c.item->text) == 1 && c.item->name && c.item->name == x.name) { n = c.scalar_item ? 1 : 2; if (!x.agg && strlen(x.text) == 1) boolean = c.bool_item; }
    else if (x.name == 'g' && c.g->keys[0] == '!') return 0; // both keys have the name
    else if (strchr(c.g->keys, x.name)) { n = 1; if (x.name == 'k') boolean = c.g->kbool; }
    else if (x.name == 'k') return 0; else n = 2;
    return x.agg ? 1 : n; }
SX_MAIN(where) { Env e; e.table("T", {{"g", I4()}, {"v", I4()}, {"b", BO()}}); auto &x = XS[sx_choose(std::size(XS), "expression")]; bool ok = x.boolean && !x.agg && x.name != 'k' && x.name != 's' && x.name != 'q'; auto st = e.parse(S("SELECT g FROM T WHERE ") + x.text + ";"); sx_check(bool(st) == ok, "WHERE takes a boolean expression without aggregates"); sx_cover(ok ? "accepted" : "rejected"); }
SX_MAIN(clauses) { Env e; e.table("T", {{"g", I4()}, {"v", I4()}, {"b", BO()}}); Cl c{}; c.g = &GS[sx_choose(std::size(GS), "group")]; bool having = sx_choose(2, "having"), order = !SX_THOROUGH && having ? false : sx_choose(2, "order"); S h, o; bool ok = c.g->ok, bo; const X *hx = nullptr, *ox = nullptr;
    c.grouped = *c.g->text || having; if (having) { hx = &XS[sx_choose(std::size(XS), "condition")]; h = S(" HAVING ") + hx->text; if (judge(*hx, c, bo) != 1 || !bo) ok = false; }
    c.item = &XS[sx_choose(std::size(XS), "item")]; bool alias = sx_choose(2, "alias"); int k = judge(*c.item, c, bo); c.scalar_item = k == 1; c.bool_item = bo; if (k == 0) ok = false; if (c.grouped && k == 2) ok = false;
    c.selected = true; c.alias = alias; if (order) { ox = &XS[sx_choose(std::size(XS), "key")]; o = S(" ORDER BY ") + ox->text + (SX_THOROUGH && sx_choose(2, "down") ? " DESC" : ""); int j = judge(*ox, c, bo); if (j == 0 || (j == 1) != c.grouped) ok = false; }
    auto st = e.parse(S("SELECT ") + c.item->text + (alias ? " AS s" : "") + " FROM T" + c.g->text + h + o + ";"); sx_check(bool(st) == ok, "the clauses of a query are accepted exactly when they obey the rules of grouping"); sx_cover(ok ? "accepted" : "rejected"); }
// two items: constants go with anything, aggregates do not go with attributes
SX_MAIN(items) { Env e; e.table("T", {{"g", I4()}, {"v", I4()}, {"b", BO()}}); Cl c{}; c.g = &GS[sx_choose(2, "group")]; c.grouped = *c.g->text; bool ok = true, vec = false, sca = false, bo; S q; unsigned n = 2 + sx_choose(2, "items"); for (unsigned i = 0; i < n; i++) { auto &x = XS[sx_choose(10, "item")]; int k = judge(x, c, bo); if (k == 0 || (c.grouped && k == 2)) ok = false; if (x.name) { vec |= k == 2; sca |= k == 1; } q += (i ? ", " : "") + S(x.text); } if (vec && sca) ok = false;
    auto st = e.parse("SELECT " + q + " FROM T" + c.g->text + ";"); sx_check(bool(st) == ok, "items per row and items per group are not mixed"); sx_cover(ok ? "accepted" : "rejected"); }
// --- definitions and changes
struct Cmd { const char *text; bool ok; };
static void decide(W &w, const S &q, bool ok) { w.run(q); sx_check(w.ok == ok, ok ? "a meaningful statement is accepted" : "a meaningless statement is rejected"); }
SX_MAIN(commands) { W w; w.table("P", {{"a", I4()}, {"c", CH(3)}}); w.C.add_database(w.C.pool("other")); w.db.add_index(std::make_unique<idx::ArrayIndex<int32_t>>(), w.C.pool("T"), w.C.pool("i4"), w.C.pool("ix"));
    static const Cmd CS[] = {{";", true}, {"CREATE DATABASE fresh;", true}, {"CREATE DATABASE other;", false}, {"CREATE DATABASE db;", false}, {"DROP DATABASE other;", true}, {"DROP DATABASE db;", false}, {"DROP DATABASE IF EXISTS db;", false}, {"DROP DATABASE none;", false}, {"DROP DATABASE IF EXISTS none;", true}, {"DROP DATABASE IF EXISTS other;", true}, {"USE other;", true}, {"USE none;", false},
        {"DROP TABLE T;", true}, {"DROP TABLE none;", false}, {"DROP TABLE T, none;", false}, {"DROP TABLE none, T;", false}, {"DROP TABLE T, P;", true}, {"DROP TABLE IF EXISTS none;", true}, {"DROP TABLE IF EXISTS none, T;", true}, {"DROP INDEX ix;", true}, {"DROP INDEX none;", false}, {"DROP INDEX ix, none;", false}, {"DROP INDEX IF EXISTS none;", true}, {"DROP INDEX IF EXISTS none, ix;", true},
        {"CREATE TABLE T (a INT(4));", false}, {"CREATE TABLE N (a INT(4));", true}, {"CREATE TABLE N (a INT(4), a INT(4));", false}, {"CREATE TABLE N (a INT(4), b BOOL, a CHAR(1));", false}, {"CREATE TABLE N (a INT(4) PRIMARY KEY, b BOOL PRIMARY KEY);", false}, {"CREATE TABLE N (a INT(4) PRIMARY KEY UNIQUE NOT NULL, b BOOL UNIQUE);", true}, {"CREATE TABLE N (a INT(4) CHECK (a > 1));", true}, {"CREATE TABLE N (a INT(4) CHECK (a + 1));", false}, {"CREATE TABLE N (a INT(4) CHECK (q > 1));", false}, {"CREATE TABLE N (a BOOL CHECK (a));", true}, {"CREATE TABLE N (a BOOL, b INT(4) CHECK (a AND b > 1));", true},
        {"CREATE TABLE N (a INT(4) REFERENCES P(a));", true}, {"CREATE TABLE N (a INT(4) REFERENCES P(b));", false}, {"CREATE TABLE N (a INT(4) REFERENCES Q(a));", false}, {"CREATE TABLE N (a INT(2) REFERENCES P(a));", false}, {"CREATE TABLE N (a CHAR(3) REFERENCES P(c));", true}, {"CREATE TABLE N (a CHAR(4) REFERENCES P(c));", false}, {"CREATE TABLE N (a INT(4) REFERENCES P(a) REFERENCES P(a));", false},
        {"CREATE INDEX n ON T (i4);", true}, {"CREATE INDEX n ON T USING array (i4);", true}, {"CREATE INDEX n ON T USING rmi (i4);", true}, {"CREATE INDEX n ON T USING btree (i4);", false}, {"CREATE INDEX n ON T USING DEFAULT (i4);", true}, {"CREATE UNIQUE INDEX n ON T (i4);", false}, {"CREATE INDEX ON T (i4);", false}, {"CREATE INDEX ix ON T (i4);", false}, {"CREATE INDEX IF NOT EXISTS ix ON T (i4);", true}, {"CREATE INDEX IF NOT EXISTS n ON T (i4);", true}, {"CREATE INDEX n ON none (i4);", false}, {"CREATE INDEX n ON T (q);", false}, {"CREATE INDEX n ON T (i4, i8);", false}, {"CREATE INDEX n ON T ((i4 + 1));", false}, {"CREATE INDEX n ON T ((1));", false},
        {"IMPORT INTO T DSV \"p\";", true}, {"IMPORT INTO none DSV \"p\";", false}, {"IMPORT INTO T DSV \"p\" DELIMITER \";\" ESCAPE \"e\" QUOTE \"'\" HAS HEADER SKIP HEADER;", true}, {"IMPORT INTO T DSV \"p\" DELIMITER \"ab\";", false}, {"IMPORT INTO T DSV \"p\" DELIMITER \"\";", false}, {"IMPORT INTO T DSV \"p\" DELIMITER \"\\\"\";", false}, {"IMPORT INTO T DSV \"p\" QUOTE \",\";", false}, {"IMPORT INTO T DSV \"p\" DELIMITER \"'\" QUOTE \"'\";", false}, {"IMPORT INTO T DSV \"p\" SKIP HEADER;", true},
        {"SELECT 1 LIMIT 5;", true}, {"SELECT 1 LIMIT 18446744073709551615 OFFSET 18446744073709551615;", true}, {"SELECT 1 LIMIT 18446744073709551616;", false}, {"SELECT 1 LIMIT 1 OFFSET 18446744073709551616;", false}, {"SELECT 1 LIMIT 0xFFFFFFFFFFFFFFFF;", true}, {"SELECT 1 LIMIT 0x10000000000000000;", false},
        {"INSERT INTO none VALUES (1);", false}, {"INSERT INTO P VALUES (1, \"x\");", true}, {"INSERT INTO P VALUES (1, \"x\"), (2, NULL), (DEFAULT, DEFAULT);", true}, {"INSERT INTO P VALUES (1);", false}, {"INSERT INTO P VALUES (1, \"x\", 2);", false}, {"INSERT INTO P VALUES (1, \"x\"), (2);", false}, {"INSERT INTO P VALUES (\"x\", 1);", false}, {"INSERT INTO P VALUES (q, \"x\");", false}, {"INSERT INTO P VALUES (a, \"x\");", false}, {"INSERT INTO P VALUES (1 + 2 * 3, \"x\" .. \"y\");", true}, {"INSERT INTO P VALUES ((NULL), \"x\");", false}, {"INSERT INTO P VALUES (SUM(1), \"x\");", false}, {"INSERT INTO P VALUES (COUNT(), \"x\");", false}, {"INSERT INTO P VALUES ((SELECT 1), \"x\");", false},
        {"UPDATE P SET a = 1;", false}, {"DELETE FROM P;", false}, {"SELECT * FROM P;", true}, {"SELECT * FROM P, T;", true}, {"SELECT *, a FROM P;", true}, {"SELECT * FROM none;", false}, {"SELECT 1;", true}, {"SELECT *;", true}, {"SELECT NULL;", true}, {"SELECT a FROM P WHERE a = (SELECT 1);", true}, {"SELECT a FROM P WHERE a = (SELECT MIN(i4) FROM T);", true}, {"SELECT a FROM P WHERE a = (SELECT i4 FROM T);", false}, {"SELECT a FROM P WHERE a = (SELECT 1, 2);", false}, {"SELECT a FROM P WHERE a = (SELECT NULL);", false}, {"SELECT a FROM P WHERE a = (SELECT nowhere FROM T);", false}, {"SELECT a FROM P WHERE a = (SELECT MIN(i4), q FROM T);", false}, {"SELECT n FROM (SELECT NULL AS n) AS X;", false}, {"SELECT n FROM (SELECT q AS n FROM P) AS X;", false}, {"SELECT * FROM (SELECT NULL) AS X;", false}, {"SELECT a FROM P GROUP BY NULL;", false}, {"SELECT a FROM P ORDER BY NULL;", false}, {"SELECT NULL FROM P ORDER BY a;", true}, {"SELECT NULL, a FROM P;", true}, {"SELECT 1 HAVING NULL;", false}, {"SELECT 1 WHERE NULL;", false}, {"SELECT NULL AS n FROM P ORDER BY n;", false}, {"SELECT a FROM P AS P, P AS Q;", false}, {"SELECT P.a FROM P AS P, P AS Q;", true}, {"SELECT a FROM P, P;", false}, {"SELECT X.a FROM P, (SELECT * FROM P) AS X;", true}};
    auto &c = CS[sx_choose(std::size(CS), "statement")]; decide(w, c.text, c.ok); }
SX_MAIN(no_database) { W w; w.C.unset_database_in_use(); static const Cmd CS[] = {{"SELECT 1;", true}, {"SELECT * FROM T;", false}, {"CREATE TABLE N (a INT(4));", false}, {"DROP TABLE T;", false}, {"DROP TABLE IF EXISTS T;", false}, {"CREATE INDEX n ON T (i4);", false}, {"DROP INDEX ix;", false}, {"INSERT INTO T VALUES (1);", false}, {"IMPORT INTO T DSV \"p\";", false}, {"DROP DATABASE db;", true}, {"USE db;", true}, {"CREATE DATABASE n;", true}, {"SELECT MIN(1);", true}, {"SELECT NOSUCH(1);", false}, {"SELECT 1 + 2, \"a\" .. \"b\";", true}, {"SELECT a;", false}, {"UPDATE P SET a = 1;", false}, {"DELETE FROM P;", false}}; auto &c = CS[sx_choose(std::size(CS), "statement")]; decide(w, c.text, c.ok); }
// an index can be made on an attribute of any type with any method, or the method is refused
SX_MAIN(indexes) { W w; auto os = operands(); auto &o = os[sx_choose(12, "attribute")]; static const char *const MS[] = {"", "USING array", "USING rmi"}; unsigned m = sx_choose(3, "method"); w.run(S("CREATE INDEX n ON T ") + MS[m] + " (" + o.text + ");"); sx_check(m == 2 || w.ok, "an array index can be made on every attribute"); if (m == 2) sx_check(w.ok == (o.ty.k != CHAR && o.ty.k != BOOL), "a learned index can be made on every attribute that is a number or date"); }
// values inserted are of the attribute's kind
SX_MAIN(inserts) { W w; auto os = operands(); unsigned a = sx_choose(12, "attribute"); bool nn = sx_choose(2, "not null"); auto &T = w.db.add_table(w.C.pool("V")); T.push_back(w.C.pool("x"), as<const PrimitiveType>(make(os[a].ty))); T.at(w.C.pool("x")).not_nullable = nn; unsigned v = 12 + sx_choose(8, "value"); auto &o = os[v]; bool ok = o.ty.k == NONE ? !nn : o.ty.num() ? os[a].ty.num() : o.ty.k == os[a].ty.k; decide(w, S("INSERT INTO V VALUES (") + o.text + ");", ok); }

// aggregates are neither nested nor combined with values of rows
SX_MAIN(aggregates) { Env e; e.table("T", {{"g", I4()}, {"v", I4()}}); static const Cmd CS[] = {{"SUM(SUM(v))", false}, {"COUNT(SUM(v))", false}, {"COUNT(COUNT())", false}, {"MAX(MIN(v) + 1)", false}, {"AVG(v + MIN(v))", false}, {"SUM(v) + v", false}, {"v - MIN(g)", false}, {"-(v + COUNT())", false}, {"ISNULL(SUM(v) + v)", false}, {"NOT (SUM(v) = g)", false}, {"SUM(v + 1) * 2 + COUNT()", true}, {"-MAX(v) + MIN(g) - 1", true}, {"ISNULL(SUM(v))", true}, {"SUM(-v * g)", true}, {"MIN(v) < MAX(g) OR AVG(v) > 1", true}};
    auto &c = CS[sx_choose(std::size(CS), "expression")]; unsigned how = sx_choose(5, "place"); S q; bool ok = c.ok; switch (how) { case 0: q = S("SELECT ") + c.text + " FROM T;"; break; case 1: q = S("SELECT v FROM T ORDER BY ") + c.text + ";"; ok = false; break; case 2: q = S("SELECT v FROM T WHERE ") + c.text + " = 1;"; ok = false; break; case 3: q = S("SELECT ") + c.text + " AS x, g FROM T GROUP BY g ORDER BY x;"; if (!strcmp(c.text, "NOT (SUM(v) = g)")) ok = true; break; case 4: q = S("SELECT x, 1 FROM (SELECT ") + c.text + " AS x FROM T) AS Q ORDER BY x;"; break; }
    auto st = e.parse(q); sx_check(bool(st) == ok, "aggregates are neither nested nor combined with values of rows"); sx_cover(ok ? "accepted" : "rejected"); }
