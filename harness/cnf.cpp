// C08: conjunctive normal forms
#include "sx.h"
#include <mutable/IR/CNF.hpp>
#include <mutable/catalog/Catalog.hpp>
#include <sstream>
#include <string>
#include <vector>
using namespace m;
using namespace m::ast;

// truth values of Kleene's logic as chains of bits, F below N below T, so that minimum and maximum are bitwise
enum { F = 0, N = 1, T = 3 };
static unsigned lesser(unsigned a, unsigned b) { return a & b; }
static unsigned greater(unsigned a, unsigned b) { return a | b; }
static unsigned negated(unsigned a) { return (~a & 1) << 1 | (~a >> 1 & 1); }
static unsigned equivalent(unsigned a, unsigned b) { return lesser(greater(negated(a), b), greater(negated(b), a)); }

// Normal forms never compare or merge predicates, so every leaf is an atom of its own with a symbolic truth value.
static constexpr unsigned ATOMS = 18;
static unsigned val[ATOMS], used; // the assignment, symbolic
static void assign() { for (unsigned i = 0; i < ATOMS; i++) { unsigned known = sx_bool("true"), possible = sx_bool("not false"); val[i] = (known & possible) << 1 | possible; } }

static Token tok(const char *s, TokenType t) { return Token(Position("t"), Catalog::Get().pool(s), t); }
static const char *NAMES[ATOMS] = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r"};
static std::unique_ptr<Expr> leaf(unsigned i) {
    std::unique_ptr<Expr> e = std::make_unique<Designator>(tok(NAMES[i], TK_IDENTIFIER));
    e->type(Type::Get_Boolean(Type::TY_Vector));
    return e;
}
static std::unique_ptr<Expr> number(unsigned i) {
    auto e = std::make_unique<Designator>(tok(NAMES[i], TK_IDENTIFIER));
    e->type(Type::Get_Integer(Type::TY_Vector, 4));
    return e;
}

/** An expression and what it denotes under the assignment. */
struct X { std::unique_ptr<Expr> e; unsigned v; };
static X fresh() { unsigned i = used++; return {leaf(i), val[i]}; }
static X invert(X x) { auto e = std::make_unique<UnaryExpr>(tok("NOT", TK_Not), std::move(x.e)); e->type(Type::Get_Boolean(Type::TY_Vector)); return {std::move(e), negated(x.v)}; }
static X combine(unsigned op, X x, X y) {
    static const struct { const char *s; TokenType t; } OPS[] = {{"AND", TK_And}, {"OR", TK_Or}, {"=", TK_EQUAL}, {"!=", TK_BANG_EQUAL}};
    auto e = std::make_unique<BinaryExpr>(tok(OPS[op].s, OPS[op].t), std::move(x.e), std::move(y.e));
    e->type(Type::Get_Boolean(Type::TY_Vector));
    return {std::move(e), op == 0 ? lesser(x.v, y.v) : op == 1 ? greater(x.v, y.v) : op == 2 ? equivalent(x.v, y.v) : negated(equivalent(x.v, y.v))};
}
static X make(unsigned depth, unsigned ops) {
    unsigned k = depth ? sx_choose(ops + 2, "shape") : 0;
    if (k == 0) return fresh();
    if (k == 1) return invert(make(depth - 1, ops));
    X x = make(depth - 1, ops);
    return combine(k - 2, std::move(x), make(depth - 1, ops));
}

static unsigned value(const cnf::Predicate &p) {
    const Expr &e = p.expr();
    sx_check(is<const Designator>(&e) || is<const BinaryExpr>(&e), "literals are the predicates of the expression");
    const char *n = is<const Designator>(&e) ? *e.tok.text.assert_not_none() : *as<const BinaryExpr>(e).lhs->tok.text.assert_not_none();
    unsigned v = val[n[0] - 'a'];
    return p.negative() ? negated(v) : v;
}
static unsigned value(const cnf::Clause &c) { unsigned v = F; for (auto &p : c) v = greater(v, value(p)); return v; }
static unsigned value(const cnf::CNF &f) { unsigned v = T; for (auto &c : f) { sx_check(not c.empty(), "no clause is empty"); v = lesser(v, value(c)); } return v; }

static void conversion(unsigned depth, unsigned ops) {
    assign();
    auto x = make(depth, ops);
    auto f = cnf::to_CNF(*x.e);
    sx_check(not f.empty() && value(f) == x.v, "the normal form has the value of the expression");
    if (f.size() <= 4) sx_check(value(not f) == negated(x.v), "negation of a normal form");
    sx_cover(f.size() > 1 ? "conjunction" : "single clause");
}
SX_MAIN(convert2) { conversion(2, 3 + SX_THOROUGH); }
SX_MAIN(convert3) { conversion(3, 2); }
// an equality deep below other operators
SX_MAIN(convert_spine) {
    assign();
    X r = combine(2 + sx_choose(2, "equality"), fresh(), fresh());
    for (unsigned d = 0; d < (SX_THOROUGH ? 4 : 3); d++) {
        unsigned k = sx_choose(5, "operator");
        if (k == 4) r = invert(std::move(r));
        else { X l = fresh(); r = k & 2 ? combine(k & 1, std::move(l), std::move(r)) : combine(k & 1, std::move(r), std::move(l)); }
    }
    auto f = cnf::to_CNF(*r.e);
    sx_check(value(f) == r.v, "the normal form has the value of the expression");
}

// comparisons of other types are literals
SX_MAIN(comparisons) {
    assign();
    static const struct { const char *s; TokenType t; } OPS[] = {{"=", TK_EQUAL}, {"!=", TK_BANG_EQUAL}, {"<", TK_LESS}, {">=", TK_GREATER_EQUAL}};
    unsigned op = sx_choose(4, "operator"), i = sx_choose(2, "atom");
    auto cmp = std::make_unique<BinaryExpr>(tok(OPS[op].s, OPS[op].t), number(i), number(3));
    cmp->type(Type::Get_Boolean(Type::TY_Vector));
    const Expr *p = cmp.get();
    std::unique_ptr<Expr> e = std::move(cmp);
    unsigned v = val[i];
    bool neg = sx_choose(2, "negated");
    if (neg) { auto u = std::make_unique<UnaryExpr>(tok("NOT", TK_Not), std::move(e)); u->type(Type::Get_Boolean(Type::TY_Vector)); e = std::move(u); v = negated(v); }
    auto f = cnf::to_CNF(*e);
    sx_check(f.size() == 1 && f[0].size() == 1 && &f[0][0].expr() == p && f[0][0].negative() == neg && value(f) == v, "a comparison becomes one literal");
    sx_check(f.is_equi() == ((op == 0 && !neg) || (op == 1 && neg)), "equi-predicates are equalities of two attributes");
    sx_check(f[0].can_be_null() && f.can_be_null(), "comparisons of attributes may be NULL");
    unsigned j = sx_choose(3, "other atom");
    auto b = std::make_unique<BinaryExpr>(tok("AND", TK_And), std::move(e), leaf(j)); b->type(Type::Get_Boolean(Type::TY_Vector));
    auto g = cnf::to_CNF(*b);
    sx_check(value(g) == lesser(v, val[j]) && !g.is_equi(), "and is joined with other predicates");
}

// the algebra of normal forms
static std::vector<std::unique_ptr<Expr>> pool;
static cnf::Clause clause(unsigned max) {
    cnf::Clause c;
    unsigned n = 1 + sx_choose(max, "predicates");
    for (unsigned k = 0; k < n; k++) c.push_back(cnf::Predicate::Create(pool[sx_choose(2, "atom")].get(), sx_choose(2, "negative")));
    return c;
}
static cnf::CNF formula(unsigned clauses, unsigned preds) {
    cnf::CNF f; unsigned n = 1 + sx_choose(clauses, "clauses");
    for (unsigned k = 0; k < n; k++) { cnf::Clause c; unsigned m_ = 1 + sx_choose(preds, "predicates"); for (unsigned i = 0; i < m_; i++) { unsigned j = used++; c.push_back(cnf::Predicate::Create(pool[j].get(), j % 3 == 1)); } f.push_back(c); }
    return f;
}
SX_MAIN(algebra) {
    assign();
    for (unsigned i = 0; i < ATOMS; i++) pool.push_back(leaf(i));
    auto f = formula(SX_THOROUGH ? 3 : 2, 2), g = formula(SX_THOROUGH ? 3 : 2, 2);
    unsigned x = value(f), y = value(g);
    sx_check(value(f && g) == lesser(x, y), "conjunction");
    sx_check(value(f || g) == greater(x, y), "disjunction");
    sx_check(value(not f) == negated(x), "negation");
    sx_check(value(f) == x && value(g) == y, "operands are unchanged");
    pool.clear();
}
SX_MAIN(clauses) {
    assign();
    for (unsigned i = 0; i < ATOMS; i++) pool.push_back(leaf(i));
    auto c = clause(3), d = clause(SX_THOROUGH ? 3 : 2);
    unsigned x = value(c), y = value(d);
    sx_check(value(c || d) == greater(x, y) && value(c && d) == lesser(x, y) && value(not c) == negated(x), "operators on clauses");
    sx_check(value(not (c && d)) == greater(negated(x), negated(y)), "De Morgan");
    auto sub = [](const cnf::Clause &a, const cnf::Clause &b) { for (auto p : a) { bool in = false; for (auto q : b) in |= p.negative() == q.negative() && &p.expr() == &q.expr(); if (!in) return false; } return true; };
    sx_check((c <= d) == sub(c, d) && (c >= d) == sub(d, c) && (c == d) == (sub(c, d) && sub(d, c)) && (c != d) != (c == d), "comparison of clauses");
    if (c <= d) sx_check((x & y) == x, "a smaller clause implies a larger one");
    cnf::CNF f({c, d}), g({d});
    sx_check(g <= f && (f <= g) == (c == d) && (f == g) == (c == d), "comparison of formulae");
    pool.clear();
}
SX_MAIN(predicates) {
    for (unsigned i = 0; i < ATOMS; i++) pool.push_back(leaf(i));
    unsigned i = sx_choose(2, "atom"), j = sx_choose(2, "atom"); bool n = sx_choose(2, "neg"), m_ = sx_choose(2, "neg");
    auto p = cnf::Predicate::Create(pool[i].get(), n), q = cnf::Predicate::Create(pool[j].get(), m_);
    sx_check(p.negative() == n && &*p == pool[i].get() && (not p).negative() == !n && &*(not p) == pool[i].get() && (not not p) == p && p != not p, "a predicate and its negation");
    sx_check((p == q) == (i == j && n == m_) && ((p < q) + (q < p) + (p == q)) == 1, "comparison of predicates");
    auto same = leaf(i); // equal, but another object
    sx_check(cnf::Predicate::Positive(same.get()) == cnf::Predicate::Positive(pool[i].get()), "equality is that of expressions");
    sx_check(std::hash<cnf::Predicate>{}(cnf::Predicate::Positive(same.get())) == std::hash<cnf::Predicate>{}(cnf::Predicate::Positive(pool[i].get())), "equal predicates hash alike");
    std::ostringstream o; o << p; sx_check(o.str() == std::string(n ? "-" : "") + NAMES[i], "printing");
    cnf::CNF f({cnf::Clause({p, q}), cnf::Clause({q})}); std::ostringstream s; f.to_sql(s);
    sx_observe("size", s.str().size());
    pool.clear();
}
