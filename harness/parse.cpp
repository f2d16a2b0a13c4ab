// C06: the parser over sequences of symbolic tokens against a reference parser of the documented grammar; printing and parsing again
// wrap: _ZN1m3ast5Lexer4nextEv
#include "sqlenv.hpp"
#include "parse/ASTPrinter.hpp"
#include "parse/ASTDumper.hpp"
using namespace m::ast; using S = std::string;
// --- the token stream: while g_n is set, the lexer hands out the harness's tokens, whose types may be symbolic
static std::vector<TokenType> g_t; static unsigned g_at; static bool g_on;
extern "C" Token __real__ZN1m3ast5Lexer4nextEv(Lexer*);
static S num(unsigned i) { return std::to_string(i + 1); }
extern "C" __attribute__((noinline)) Token __wrap__ZN1m3ast5Lexer4nextEv(Lexer *l) {
    if (!g_on) return __real__ZN1m3ast5Lexer4nextEv(l);
    Position p("-"); p.line = 1; p.column = g_at + 1;
    if (g_at >= g_t.size()) return Token(p, l->pool("EOF"), TK_EOF);
    unsigned i = g_at++; if (g_t[i] == TK_ERROR) l->diag.e(p) << "not a token\n";
    return Token(p, l->pool(num(i).c_str()), g_t[i]);
}
static bool is_const(TokenType t) { switch (t) { case TK_Null: case TK_True: case TK_False: case TK_STRING_LITERAL: case TK_DATE: case TK_DATE_TIME: case TK_OCT_INT: case TK_DEC_INT: case TK_HEX_INT: case TK_DEC_FLOAT: case TK_HEX_FLOAT: return true; default: return false; } }
static int level(TokenType t) { switch (t) { case TK_Or: return 1; case TK_And: return 2; case TK_LESS: case TK_GREATER: case TK_LESS_EQUAL: case TK_GREATER_EQUAL: case TK_EQUAL: case TK_BANG_EQUAL: case TK_Like: return 4; case TK_DOTDOT: return 5; case TK_PLUS: case TK_MINUS: return 6; case TK_ASTERISK: case TK_SLASH: case TK_PERCENT: return 7; default: return 0; } }
// --- the reference: recursive descent over the grammar of doc/syntax-grammar.md, with LIKE and .. as the parser documents them; trees as text
struct Ref {
    const std::vector<TokenType> &t; const std::vector<S> &x; unsigned at = 0; bool bad = false;
    TokenType cur(unsigned k = 0) { return at + k < t.size() ? t[at + k] : TK_EOF; }
    bool is(TokenType k) { return cur() == k; }
    bool take(TokenType k) { if (!bad && is(k)) { at++; return true; } return false; }
    void need(TokenType k) { if (!take(k)) bad = true; }
    S tok() { return at < x.size() ? x[at++] : (at++, S("EOF")); }
    S id() { if (bad || !is(TK_IDENTIFIER)) { bad = true; return ""; } return tok(); }
    S opt_as() { if (take(TK_As)) return id(); if (is(TK_IDENTIFIER)) return tok(); return "-"; }
    S expr(int min = 1) {
        if (bad) return ""; S l;
        if (is(TK_IDENTIFIER)) { l = tok(); if (take(TK_DOT)) l = "(d " + l + " " + id() + ")"; else l = "(d " + l + ")"; }
        else if (is_const(cur())) l = "(k " + tok() + ")";
        else if (take(TK_LPAR)) { if (is(TK_Select)) l = "(q " + select() + ")"; else l = expr(); need(TK_RPAR); }
        else if (is(TK_PLUS) || is(TK_MINUS) || is(TK_TILDE)) { S o = tok(); l = "(u " + o + " " + expr(8) + ")"; }
        else if (is(TK_Not)) { S o = tok(); l = "(u " + o + " " + expr(3) + ")"; }
        else { bad = true; return ""; }
        while (!bad && take(TK_LPAR)) { S a; if (!take(TK_ASTERISK) && !is(TK_RPAR)) do a += " " + expr(); while (take(TK_COMMA)); need(TK_RPAR); l = "(f " + l + a + ")"; }
        for (;;) { if (bad) return ""; int p = level(cur()); if (p == 0 || p < min) return l; S o = tok(); S r = expr(p + 1); l = "(b " + o + " " + l + " " + r + ")"; }
    }
    S select() {
        need(TK_Select); S r = "(select"; if (is(TK_ASTERISK)) r += " *" + tok(); else { S e = expr(); r += " [" + e + " " + opt_as() + "]"; } while (take(TK_COMMA)) { S e = expr(); r += " [" + e + " " + opt_as() + "]"; }
        if (take(TK_From)) { r += " from"; do { if (take(TK_LPAR)) { S s = select(); need(TK_RPAR); take(TK_As); r += " [" + s + " " + id() + "]"; } else { S n = id(); r += " [" + n + " " + opt_as() + "]"; } } while (take(TK_COMMA)); }
        if (take(TK_Where)) r += " where " + expr();
        if (take(TK_Group)) { need(TK_By); r += " group"; do { S e = expr(); r += " [" + e + " " + opt_as() + "]"; } while (take(TK_COMMA)); }
        if (take(TK_Having)) r += " having " + expr();
        if (take(TK_Order)) { need(TK_By); r += " order"; do { S e = expr(); bool d = take(TK_Descending); if (!d) take(TK_Ascending); r += " [" + e + (d ? " down]" : " up]"); } while (take(TK_COMMA)); }
        if (take(TK_Limit)) { r += " limit " + integer(); if (take(TK_Offset)) r += " " + integer(); else r += " -"; }
        return r + ")";
    }
    S integer() { if (bad || !(is(TK_DEC_INT) || is(TK_OCT_INT) || is(TK_HEX_INT))) { bad = true; return ""; } return tok(); }
    S lit() { if (bad || !is(TK_STRING_LITERAL)) { bad = true; return ""; } return tok(); }
    S dec() { if (bad || !is(TK_DEC_INT)) { bad = true; return ""; } return tok(); }
    S type() {
        if (take(TK_Bool)) return "bool"; if (take(TK_Date)) return "date"; if (take(TK_Datetime)) return "datetime"; if (take(TK_Float)) return "float"; if (take(TK_Double)) return "double";
        if (is(TK_Char) || is(TK_Varchar) || is(TK_Int)) { S n = is(TK_Char) ? "char " : is(TK_Varchar) ? "varchar " : "int "; at++; need(TK_LPAR); n += dec(); need(TK_RPAR); return n; }
        if (take(TK_Decimal)) { need(TK_LPAR); S p = dec(), s = "0"; if (take(TK_COMMA)) s = is(TK_OCT_INT) && at < x.size() && x[at] == "0" ? tok() : dec(); need(TK_RPAR); return "decimal " + p + " " + s; }
        bad = true; return "";
    }
    S names() { S r; do r += " " + id(); while (take(TK_COMMA)); return r; }
    bool if_exists() { if (!take(TK_If)) return false; need(TK_Exists); return true; }
    S statement() {
        S r; if (take(TK_SEMICOL)) return "(empty)";
        if (take(TK_Create)) {
            if (take(TK_Database)) r = "(create-database " + id() + ")";
            else if (take(TK_Table)) { r = "(create-table " + id(); need(TK_LPAR); do { S n = id(); r += " [" + n + " " + type(); for (;;) { if (bad) break;
                    if (take(TK_Primary)) { need(TK_Key); r += " key"; } else if (take(TK_Not)) { need(TK_Null); r += " notnull"; } else if (take(TK_Unique)) r += " unique"; else if (take(TK_Check)) { need(TK_LPAR); r += " check " + expr(); need(TK_RPAR); }
                    else if (take(TK_References)) { S a = id(); need(TK_LPAR); r += " ref " + a + " " + id(); need(TK_RPAR); } else break; } r += "]"; } while (take(TK_COMMA)); need(TK_RPAR); r += ")"; }
            else { bool u = take(TK_Unique); need(TK_Index); r = u ? "(create-unique-index" : "(create-index"; if (take(TK_If)) { need(TK_Not); need(TK_Exists); r += " ine " + id(); } else if (is(TK_IDENTIFIER)) r += " " + tok(); else r += " -"; need(TK_On); r += " on " + id();
                if (take(TK_Using)) { if (is(TK_IDENTIFIER) || is(TK_Default)) r += " using " + tok(); else bad = true; } need(TK_LPAR);
                do { if (is(TK_IDENTIFIER)) r += " (d " + tok() + ")"; else if (is(TK_LPAR)) r += " " + expr(); else bad = true; } while (take(TK_COMMA)); need(TK_RPAR); r += ")"; }
        } else if (take(TK_Drop)) {
            if (take(TK_Database)) { bool e = if_exists(); r = S("(drop-database") + (e ? " ie " : " ") + id() + ")"; } else if (take(TK_Table)) { bool e = if_exists(); r = S("(drop-table") + (e ? " ie" : "") + names() + ")"; } else { need(TK_Index); bool e = if_exists(); r = S("(drop-index") + (e ? " ie" : "") + names() + ")"; }
        } else if (take(TK_Use)) r = "(use " + id() + ")";
        else if (is(TK_Select)) r = select();
        else if (take(TK_Insert)) { need(TK_Into); r = "(insert " + id(); need(TK_Values); do { need(TK_LPAR); r += " ["; do { if (take(TK_Default)) r += " default"; else if (is(TK_Null)) { at++; r += " null"; } else r += " " + expr(); } while (take(TK_COMMA)); need(TK_RPAR); r += "]"; } while (take(TK_COMMA)); r += ")"; }
        else if (take(TK_Update)) { r = "(update " + id(); need(TK_Set); do { S n = id(); need(TK_EQUAL); r += " [" + n + " " + expr() + "]"; } while (take(TK_COMMA)); if (take(TK_Where)) r += " where " + expr(); r += ")"; }
        else if (take(TK_Delete)) { need(TK_From); r = "(delete " + id(); if (take(TK_Where)) r += " where " + expr(); r += ")"; }
        else if (take(TK_Import)) { need(TK_Into); r = "(import " + id(); need(TK_Dsv); r += " " + lit(); if (take(TK_Rows)) { if (is(TK_DEC_INT) || is(TK_OCT_INT)) r += " rows " + tok(); else bad = true; } if (take(TK_Delimiter)) r += " delimiter " + lit(); if (take(TK_Escape)) r += " escape " + lit(); if (take(TK_Quote)) r += " quote " + lit(); if (take(TK_Has)) { need(TK_Header); r += " has"; } if (take(TK_Skip)) { need(TK_Header); r += " skip"; } r += ")"; }
        else { bad = true; return ""; }
        need(TK_SEMICOL); return r;
    }
};
// --- the same text form of the parser's tree
static S tx(const Token &t) { return t ? S(*t.text) : S("-"); }
static S show(const Stmt &s);
static S show(const Expr &e) {
    if (auto d = cast<const Designator>(&e)) return d->has_explicit_table_name() ? "(d " + tx(d->table_name) + " " + tx(d->attr_name) + ")" : "(d " + tx(d->attr_name) + ")";
    if (auto c = cast<const Constant>(&e)) return "(k " + tx(c->tok) + ")";
    if (auto f = cast<const FnApplicationExpr>(&e)) { S r = "(f " + show(*f->fn); for (auto &a : f->args) r += " " + show(*a); return r + ")"; }
    if (auto u = cast<const UnaryExpr>(&e)) return "(u " + tx(u->op()) + " " + show(*u->expr) + ")";
    if (auto b = cast<const BinaryExpr>(&e)) return "(b " + tx(b->op()) + " " + show(*b->lhs) + " " + show(*b->rhs) + ")";
    if (auto q = cast<const QueryExpr>(&e)) return "(q " + show(*q->query) + ")";
    return "(error)";
}
static S show(const Type *t) { if (t->is_boolean()) return "bool"; if (t->is_date()) return "date"; if (t->is_date_time()) return "datetime"; if (t->is_float()) return "float"; if (t->is_double()) return "double"; if (auto c = cast<const CharacterSequence>(t)) return (c->is_varying ? "varchar " : "char ") + std::to_string(c->length); if (t->is_integral()) return "int " + std::to_string(as<const Numeric>(t)->precision); if (t->is_decimal()) return "decimal " + std::to_string(as<const Numeric>(t)->precision) + " " + std::to_string(as<const Numeric>(t)->scale); return "error"; }
static S show(const Stmt &s) {
    if (is<const EmptyStmt>(&s)) return "(empty)"; S r;
    if (auto x = cast<const CreateDatabaseStmt>(&s)) return "(create-database " + tx(x->database_name) + ")";
    if (auto x = cast<const DropDatabaseStmt>(&s)) return S("(drop-database") + (x->has_if_exists ? " ie " : " ") + tx(x->database_name) + ")";
    if (auto x = cast<const UseDatabaseStmt>(&s)) return "(use " + tx(x->database_name) + ")";
    if (auto x = cast<const CreateTableStmt>(&s)) { r = "(create-table " + tx(x->table_name); for (auto &a : x->attributes) { r += " [" + tx(a->name) + " " + show(static_cast<const Type*>(a->type)); for (auto &c : a->constraints) { if (is<const PrimaryKeyConstraint>(c.get())) r += " key"; else if (is<const NotNullConstraint>(c.get())) r += " notnull"; else if (is<const UniqueConstraint>(c.get())) r += " unique"; else if (auto k = cast<const CheckConditionConstraint>(c.get())) r += " check " + show(*k->cond); else if (auto f = cast<const ReferenceConstraint>(c.get())) r += " ref " + tx(f->table_name) + " " + tx(f->attr_name); else r += " ?"; } r += "]"; } return r + ")"; }
    if (auto x = cast<const DropTableStmt>(&s)) { r = S("(drop-table") + (x->has_if_exists ? " ie" : ""); for (auto &n : x->table_names) r += " " + tx(*n); return r + ")"; }
    if (auto x = cast<const DropIndexStmt>(&s)) { r = S("(drop-index") + (x->has_if_exists ? " ie" : ""); for (auto &n : x->index_names) r += " " + tx(*n); return r + ")"; }
    if (auto x = cast<const CreateIndexStmt>(&s)) { r = x->has_unique ? "(create-unique-index" : "(create-index"; if (x->has_if_not_exists) r += " ine"; r += " " + tx(x->index_name) + " on " + tx(x->table_name); if (x->method) r += " using " + tx(x->method); for (auto &k : x->key_fields) r += " " + show(*k); return r + ")"; }
    if (auto x = cast<const SelectStmt>(&s)) {
        r = "(select"; auto sc = cast<const SelectClause>(x->select.get()); if (!sc) return "(error)"; if (sc->select_all) r += " *" + tx(sc->select_all); for (auto &e : sc->select) r += " [" + show(*e.first) + " " + tx(e.second) + "]";
        if (x->from) { auto c = cast<const FromClause>(x->from.get()); if (!c) return "(error)"; r += " from"; for (auto &f : c->from) { r += " ["; if (auto t = std::get_if<Token>(&f.source)) r += tx(*t); else r += show(*std::get<Stmt*>(f.source)); r += " " + tx(f.alias) + "]"; } }
        if (x->where) { auto c = cast<const WhereClause>(x->where.get()); if (!c) return "(error)"; r += " where " + show(*c->where); }
        if (x->group_by) { auto c = cast<const GroupByClause>(x->group_by.get()); if (!c) return "(error)"; r += " group"; for (auto &g : c->group_by) r += " [" + show(*g.first) + " " + tx(g.second) + "]"; }
        if (x->having) { auto c = cast<const HavingClause>(x->having.get()); if (!c) return "(error)"; r += " having " + show(*c->having); }
        if (x->order_by) { auto c = cast<const OrderByClause>(x->order_by.get()); if (!c) return "(error)"; r += " order"; for (auto &o : c->order_by) r += " [" + show(*o.first) + (o.second ? " up]" : " down]"); }
        if (x->limit) { auto c = cast<const LimitClause>(x->limit.get()); if (!c) return "(error)"; r += " limit " + tx(c->limit) + " " + tx(c->offset); }
        return r + ")"; }
    if (auto x = cast<const InsertStmt>(&s)) { r = "(insert " + tx(x->table_name); for (auto &t : x->tuples) { r += " ["; for (auto &e : t) r += e.first == InsertStmt::I_Default ? S(" default") : e.first == InsertStmt::I_Null ? S(" null") : " " + show(*e.second); r += "]"; } return r + ")"; }
    if (auto x = cast<const UpdateStmt>(&s)) { r = "(update " + tx(x->table_name); for (auto &a : x->set) r += " [" + tx(a.first) + " " + show(*a.second) + "]"; if (x->where) { auto c = cast<const WhereClause>(x->where.get()); if (!c) return "(error)"; r += " where " + show(*c->where); } return r + ")"; }
    if (auto x = cast<const DeleteStmt>(&s)) { r = "(delete " + tx(x->table_name); if (x->where) { auto c = cast<const WhereClause>(x->where.get()); if (!c) return "(error)"; r += " where " + show(*c->where); } return r + ")"; }
    if (auto x = cast<const DSVImportStmt>(&s)) { r = "(import " + tx(x->table_name) + " " + tx(x->path); if (x->rows) r += " rows " + tx(x->rows); if (x->delimiter) r += " delimiter " + tx(x->delimiter); if (x->escape) r += " escape " + tx(x->escape); if (x->quote) r += " quote " + tx(x->quote); if (x->has_header) r += " has"; if (x->skip_header) r += " skip"; return r + ")"; }
    return "(error)";
}
// --- from token types to text
static S spelling(TokenType t, unsigned i) {
    switch (t) {
        case TK_IDENTIFIER: return "t" + num(i); case TK_STRING_LITERAL: return "\"s" + num(i) + "\""; case TK_DATE: return "d'2020-01-02'"; case TK_DATE_TIME: return "d'2020-01-02 03:04:05'"; case TK_OCT_INT: return "017"; case TK_DEC_INT: return num(i); case TK_HEX_INT: return "0x1F"; case TK_DEC_FLOAT: return num(i) + ".5"; case TK_HEX_FLOAT: return "0x1.8p1"; case TK_INSTRUCTION: return "\\x;";
        case TK_LPAR: return "("; case TK_RPAR: return ")"; case TK_TILDE: return "~"; case TK_PLUS: return "+"; case TK_MINUS: return "-"; case TK_ASTERISK: return "*"; case TK_SLASH: return "/"; case TK_PERCENT: return "%"; case TK_DOTDOT: return ".."; case TK_EQUAL: return "="; case TK_BANG_EQUAL: return "!="; case TK_LESS: return "<"; case TK_GREATER: return ">"; case TK_LESS_EQUAL: return "<="; case TK_GREATER_EQUAL: return ">="; case TK_COMMA: return ","; case TK_DOT: return "."; case TK_SEMICOL: return ";";
#define M_KEYWORD(tt, text) case TK_##tt: return #text;
#include <mutable/tables/Keywords.tbl>
#undef M_KEYWORD
        default: return "?";
    }
}
static bool g_escape;
struct P : Env {
    std::unique_ptr<Stmt> stmt; S next;
    bool text(const S &s) { diag.clear(); std::istringstream in(s); Lexer lexer(diag, C.get_pool(), "-", in); Parser p(lexer); stmt = p.parse_Stmt(); next = p.token().type == TK_EOF ? "" : "more"; return diag.num_errors() == 0; }
    bool tokens(bool closed) { diag.clear(); std::istringstream in(""); Lexer lexer(diag, C.get_pool(), "-", in); g_on = true; g_at = 0; { Parser p(lexer); stmt = p.parse_Stmt(); next = S(*p.token().text); } g_on = false; return diag.num_errors() == 0; }
    static S printed(const Stmt &s) { std::ostringstream o; ASTPrinter p(o); p(s); return o.str(); }
    static S dumped(const Stmt &s) { std::ostringstream o; ASTDumper d(o); d(s); S r = o.str(), q; for (size_t i = 0; i < r.size(); i++) { if (r.compare(i, 3, "(-:") == 0) { while (r[i] != ')') i++; continue; } q += r[i]; } return q; }
    // the parser over g_t, whose types may be symbolic, and over texts of the sequences it accepts
    void judge(bool again = true, bool every = true) {
        std::vector<S> x; for (unsigned i = 0; i < g_t.size(); i++) x.push_back(num(i)); Ref r{g_t, x};
        S want = r.statement(); bool ok = tokens(false); sx_check(ok == !r.bad, r.bad ? "a statement the grammar does not allow is rejected" : "a statement of the grammar is accepted"); sx_check((bool)stmt, "a statement, if only an erroneous one"); sx_cover(ok ? "accepted" : "rejected"); sx_observe("accepted", ok);
        if (!ok) return; S got = show(*stmt); sx_check(got == want, "the tree the grammar gives"); sx_check(next == (r.at < g_t.size() ? num(r.at) : S("EOF")), "the parser stops behind the statement"); if (!again) return;
        // one text for each way the operators can be chosen; constants of every kind in turn
        static const TokenType ks[] = {TK_DEC_INT, TK_STRING_LITERAL, TK_DEC_FLOAT, TK_True, TK_DATE, TK_HEX_INT, TK_Null, TK_DATE_TIME, TK_OCT_INT, TK_False, TK_HEX_FLOAT};
        std::vector<TokenType> c; for (unsigned i = 0; i < r.at; i++) { TokenType t = g_t[i]; if (is_const(t)) { bool found = false; for (unsigned j = 0; j < std::size(ks) && !found; j++) { TokenType k = ks[(i + j) % std::size(ks)]; if (t == k) { t = k; found = true; } else if (!every) continue; } if (!every) sx_assume(found); } c.push_back(TokenType(sx_fork_value(t))); }
        S line; std::vector<S> y; for (unsigned i = 0; i < r.at; i++) { y.push_back(spelling(c[i], i)); line += (i ? " " : "") + y.back(); }
        Ref r2{c, y}; S want2 = r2.statement(); sx_check(text(line), "the text of an accepted sequence of tokens is accepted"); S got2 = show(*stmt); sx_check(got2 == want2, "the tree the grammar gives to the text");
        if (auto im = cast<const DSVImportStmt>(stmt.get()); im && (im->escape || im->quote) && !g_escape) return; // entry import_text judges how these are printed
        S p1 = printed(*stmt), d1 = dumped(*stmt); sx_check(text(p1), "a printed statement is a statement"); sx_check(next.empty(), "and a single one"); S p2 = printed(*stmt); sx_check(p2 == p1, "printing it again gives the same text"); S got3 = show(*stmt); sx_check(got3 == got2, "parsing the printed text gives the same tree"); sx_check(dumped(*stmt) == d1, "and the same dump"); sx_cover("printed");
    }
};
// any token a lexer produces (an erroneous one only if asked for)
static TokenType any(bool errors = false) { return TokenType(sx_range(0, errors ? TK_ERROR : TK_BACKSLASH - 1, "token", 8)); }
static void put(std::initializer_list<TokenType> l) { for (auto t : l) g_t.push_back(t); }
static void toks(unsigned n, bool errors = false) { for (unsigned i = 0; i < n; i++) g_t.push_back(any(errors)); }
// statements of any tokens
SX_MAIN(tokens) { P p; g_t.clear(); toks(sx_choose(SX_THOROUGH ? 6 : 4, "length")); p.judge(); }
SX_MAIN(erroneous) { P p; g_t.clear(); toks(sx_choose(SX_THOROUGH ? 6 : 4, "length"), true); p.tokens(false); sx_cover("done"); sx_check((bool)p.stmt, "a statement, if only an erroneous one"); }
// expressions: SELECT, any tokens that occur in expressions
SX_MAIN(expressions) { P p; g_t.clear(); put({TK_Select}); unsigned n = sx_choose(SX_THOROUGH ? 6 : 5, "length"); for (unsigned i = 0; i < n; i++) { TokenType t = any(); sx_assume(is_const(t) | (level(t) > 0) | (t == TK_IDENTIFIER) | (t == TK_LPAR) | (t == TK_RPAR) | (t == TK_TILDE) | (t == TK_Not) | (t == TK_DOT) | (t == TK_COMMA)); g_t.push_back(t); } put({TK_SEMICOL}); p.judge(true, false); }
// operands joined by any operators, each with or without an operator in front or parentheses around a part
static void operators(unsigned n, bool again) { P p; g_t.clear(); put({TK_Select}); unsigned open = sx_choose(n + 1, "parenthesis from"), close = open < n ? open + 1 + sx_choose(n - open, "to") : 0; for (unsigned i = 0; i < n; i++) { if (i) { TokenType t = any(); sx_assume(level(t) > 0 | t == TK_Not | t == TK_TILDE); g_t.push_back(t); } if (sx_choose(2, "prefix")) { TokenType t = any(); sx_assume((t == TK_PLUS) | (t == TK_MINUS) | (t == TK_TILDE) | (t == TK_Not)); g_t.push_back(t); } if (i == open) put({TK_LPAR}); put({TK_IDENTIFIER}); if (close == i + 1 && open < n) put({TK_RPAR}); } put({TK_SEMICOL}); p.judge(again, false); }
SX_MAIN(operators_tree) { operators(SX_THOROUGH ? 4 : 3, false); }
SX_MAIN(operators_text) { operators(2, true); }
// statements with a token replaced by any token, or one inserted or removed
static const char *const tmpl[] = {
    "CREATE DATABASE a;", "DROP DATABASE IF EXISTS a;", "DROP DATABASE a;", "USE a;", ";", "DROP TABLE a, b;", "DROP TABLE IF EXISTS a;", "DROP INDEX a, b;", "DROP INDEX IF EXISTS a;",
    "CREATE TABLE a (b INT(4) NOT NULL UNIQUE, c CHAR(3) PRIMARY KEY, d DECIMAL(5, 2) CHECK (d > 1) REFERENCES e(f), g BOOL);", "CREATE TABLE a (b VARCHAR(3), c DATE, d DATETIME, e FLOAT, f DOUBLE, g DECIMAL(4));",
    "CREATE UNIQUE INDEX IF NOT EXISTS a ON b USING c (d, (e + 1));", "CREATE INDEX ON a USING DEFAULT (b, (c(d)), (1), (a.b), (-a));", "CREATE INDEX a ON b ((c < (SELECT d)));",
    "INSERT INTO a VALUES (1, NULL, DEFAULT), (b + 2, -3, \"x\");", "INSERT INTO a VALUES ((SELECT b FROM c), f(NULL, 2));", "UPDATE a SET b = 1, c = b * 2 WHERE d < 3;", "UPDATE a SET b = (SELECT c);", "DELETE FROM a WHERE NOT b = 1;", "DELETE FROM a;", "DELETE FROM a WHERE b < (SELECT c FROM d);",
    "IMPORT INTO a DSV \"p\" ROWS 10 DELIMITER \",\" ESCAPE \"e\" QUOTE \"q\" HAS HEADER SKIP HEADER;", "IMPORT INTO a DSV \"p\";",
    "SELECT * FROM a;", "SELECT *, a AS b, c d FROM e AS f, g h, i;", "SELECT a.b, f(), g(*), h(1, 2)(3) FROM (SELECT 1) AS x, (SELECT a FROM b) y WHERE a = (SELECT c FROM d LIMIT 1);",
    "SELECT a FROM b WHERE c GROUP BY d, e AS f, g h HAVING i ORDER BY j, k DESC, l ASC LIMIT 3 OFFSET 017;", "SELECT 1 HAVING (SELECT 2 WHERE 3) < 4;", "SELECT a LIMIT 0x1F;", "SELECT (SELECT (SELECT a)), b FROM c ORDER BY (SELECT d) DESC;",
    "SELECT NOT a AND b OR NOT (c = d) AND e LIKE \"x\" .. \"y\";", "SELECT -a * +b % ~c - (d - e) / f(g)(h) .. i < j;", "SELECT a - b - c, a / b * c, a = b != c, a .. b .. c, a OR b OR c, a AND b OR c AND d;" };
static void lex(P &p, const char *s) { std::istringstream in(s); Lexer l(p.diag, p.C.get_pool(), "-", in); g_t.clear(); for (;;) { Token t = l.next(); if (t.type == TK_EOF) break; g_t.push_back(t.type); } }
SX_MAIN(statements) { P p; lex(p, tmpl[sx_choose(std::size(tmpl), "statement")]); p.judge(); }
static void altered(unsigned k, unsigned m) { P p; lex(p, tmpl[k]); unsigned n = g_t.size(), how = sx_choose(3, "alteration"), at = sx_choose(n, "at"); if (how == 0) for (unsigned i = 0; i < m && at + i < n; i++) g_t[at + i] = any(); else if (how == 1) for (unsigned i = 0; i < m; i++) g_t.insert(g_t.begin() + at, any()); else g_t.erase(g_t.begin() + at); p.judge(true, false); }
SX_MAIN(altered_definitions) { altered(sx_choose(14, "statement"), SX_THOROUGH ? 2 : 1); }
SX_MAIN(altered_changes) { altered(14 + sx_choose(9, "statement"), SX_THOROUGH ? 2 : 1); }
SX_MAIN(altered_queries) { altered(23 + sx_choose(std::size(tmpl) - 23, "statement"), SX_THOROUGH ? 2 : 1); }
// instructions: a name and arguments
SX_MAIN(instructions) { P p; static const char cs[] = "a1_ \n"; unsigned n = sx_choose(5, "length"); S s = "\\x"; std::vector<S> want; S w = "x"; bool named = true; for (unsigned i = 0; i < n; i++) { char c = cs[sx_choose(5, "c")]; s += c; if (c == ' ' || c == '\n') { if (!w.empty()) want.push_back(w); w = ""; } else w += c; } if (!w.empty()) want.push_back(w); (void)named; s += ";"; std::istringstream in(s); Lexer l(p.diag, p.C.get_pool(), "-", in); Parser q(l); auto c = q.parse(); auto i = cast<Instruction>(c.get()); sx_check(i && p.diag.num_errors() == 0, "an instruction"); sx_check(S(*i->name) == want[0], "its name"); sx_check(i->args.size() == want.size() - 1, "its arguments"); for (unsigned j = 0; j < i->args.size(); j++) sx_check(i->args[j] == want[j + 1], "each argument"); sx_cover("instruction"); sx_observe("args", i->args.size()); }
// ESCAPE and QUOTE of an IMPORT
SX_MAIN(import_text) { P p; g_escape = true; static const char *const t[] = {"IMPORT INTO a DSV \"p\" ESCAPE \"e\";", "IMPORT INTO a DSV \"p\" QUOTE \"q\";"}; lex(p, t[sx_choose(2, "statement")]); p.judge(); }
