// C14: schemas, tables, databases, the catalog and the commands that change it
#include "sx.h"
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/DatabaseCommand.hpp>
#include <mutable/Options.hpp>
#include <sstream>
#include <string>
#include <vector>
using namespace m;
static const char *NM[] = {"a", "b", "c", "d", "zz"};
static ThreadSafePooledString P(unsigned i) { return Catalog::Get().pool(NM[i]); }
// ---------------------------------------------------------------------------------------------- schemas
struct E { int prefix; unsigned name; unsigned type; unsigned cons; bool konst; bool same(const E &o) const { return konst == o.konst && (konst || (prefix == o.prefix && name == o.name)); } };
static const Type *sty(unsigned k) { return k ? (const Type*)Type::Get_Integer(Type::TY_Vector, 4) : (const Type*)Type::Get_Double(Type::TY_Vector); }
static Schema::Identifier id(const E &e) { if (e.konst) return Schema::Identifier::GetConstant(); if (e.prefix < 0) return Schema::Identifier(P(e.name)); return Schema::Identifier(ThreadSafePooledOptionalString(P(3 + e.prefix)), P(e.name)); }
static E pick(bool typed) { unsigned w = sx_choose(5, "identifier"); E e{w < 2 ? -1 : w < 4 ? 0 : -1, w & 1, 0, 0, w == 4}; if (typed) { e.type = sx_choose(2, "type"); e.cons = sx_range(0, 15, "constraints", 8); } else e.type = w & 1; return e; }
static bool shows(const Schema &S, const std::vector<E> &v) { if (S.num_entries() != v.size() || S.empty() != v.empty()) return false; bool ok = true; size_t i = 0; for (auto &e : S) { ok &= e.id == id(v[i]) && e.type == sty(v[i].type) && uint64_t(e.constraints) == v[i].cons; i++; } return ok && i == v.size() && size_t(S.cend() - S.cbegin()) == i; }
static Schema build(std::vector<E> &v, unsigned max, bool typed) { Schema S; unsigned n = sx_choose(max + 1, "entries"); for (unsigned i = 0; i < n; i++) { E e = pick(typed); v.push_back(e); switch (sx_choose(typed ? 3 : 1, "how")) { case 0: S.add(id(e), sty(e.type), Schema::entry_type::constraints_t(e.cons)); break; case 1: S.add(Schema::entry_type(id(e), sty(e.type), Schema::entry_type::constraints_t(e.cons))); break; case 2: S.add(id(e), sty(e.type)); v.back().cons = 0; break; } } return S; }
static unsigned count(const std::vector<E> &v, const E &q) { unsigned c = 0; for (auto &e : v) c += e.same(q); return c; }
SX_MAIN(schema_lookup) { std::vector<E> v; Schema S = build(v, SX_THOROUGH ? 4 : 3, !SX_THOROUGH); sx_check(shows(S, v), "a schema lists what was added, in order"); const Schema &C = S; E q = pick(false); unsigned n = count(v, q); auto qi = id(q);
    if (n > 1) { sx_cover("ambiguous"); int threw = 0; try { S.find(qi); } catch (m::invalid_argument&) { threw++; } try { C.has(qi); } catch (m::invalid_argument&) { threw++; } try { S.at(qi); } catch (m::invalid_argument&) { threw++; } sx_check(threw == 3, "an ambiguous lookup is rejected"); }
    else if (n == 0) { bool threw = false; try { S.at(qi); } catch (m::out_of_range&) { threw = true; } sx_check(threw && !S.has(qi) && S.find(qi) == S.end() && C.find(qi) == C.end(), "an unknown identifier is not found"); }
    else { unsigned i = 0; while (!v[i].same(q)) i++; auto a = S.at(qi); auto b = C[qi]; sx_check(S.has(qi) && a.first == i && b.first == i && &a.second == &S[i] && &b.second == &C[i] && S.find(qi) - S.begin() == i, "a unique identifier is found at its place"); auto &en = S.at(i); sx_check(en.nullable() == !(v[i].cons & 1) && en.unique() == bool(v[i].cons & 2) && en.references_unique() == bool(v[i].cons & 4), "constraints"); }
    unsigned idx = sx_choose(6, "index"); bool oob = false; try { auto &e = C.at(idx); sx_check(idx < v.size() && e.id == id(v[idx]), "access by position"); } catch (m::out_of_range&) { oob = true; } sx_check(oob == (idx >= v.size()), "a position out of range is rejected"); }
SX_MAIN(schema_reduce) { std::vector<E> v, d, k; Schema S = build(v, 3, true); for (auto &e : v) { if (!count(d, e)) d.push_back(e); if (!e.konst) k.push_back(e); } sx_check(shows(S.deduplicate(), d), "deduplication keeps the first entry of every identifier"); sx_check(shows(S.drop_constants(), k), "dropping constants keeps all other entries"); sx_check(shows(S, v), "the schema itself is unchanged"); }
SX_MAIN(schema_pairs) { std::vector<E> v, w; Schema S = build(v, 2, false), R = build(w, 2, false); for (unsigned i = 0; i < v.size(); i++) { v[i].cons = i + 1; S.at(i).constraints = Schema::entry_type::constraints_t(i + 1); } for (unsigned i = 0; i < w.size(); i++) { w[i].cons = 4 + 4 * i; R.at(i).constraints = Schema::entry_type::constraints_t(4 + 4 * i); }
    auto cat = v; cat.insert(cat.end(), w.begin(), w.end()); sx_check(shows(S + R, cat), "concatenation"); Schema A = S; A += R; sx_check(shows(A, cat), "concatenation in place");
    bool amb = false; std::vector<E> un = v; for (auto &e : w) { if (count(un, e) > 1) amb = true; if (!count(un, e)) un.push_back(e); } bool threw = false; try { Schema U = S | R; if (!amb) sx_check(shows(U, un), "union adds what is missing"); Schema V = S; V |= R; if (!amb) sx_check(shows(V, un), "union in place"); } catch (m::invalid_argument&) { threw = true; } sx_check(threw == amb, "a union is rejected exactly when a lookup is ambiguous");
    amb = false; std::vector<E> in; for (auto &e : v) { unsigned n = count(w, e); if (n > 1) amb = true; if (n == 1) for (auto &f : w) if (f.same(e)) { E g = e; g.cons |= f.cons; in.push_back(g); if (g.type != f.type) amb = true; } } threw = false; try { Schema I = S & R; if (!amb) sx_check(shows(I, in), "intersection keeps common entries and merges constraints"); } catch (m::invalid_argument&) { threw = true; } sx_check(threw == amb, "an intersection is rejected exactly when ambiguous");
    bool dup = false; for (auto &e : v) if (count(w, e) > 1) dup = true; for (auto &e : w) if (count(v, e) > 1) dup = true; if (!dup) { bool eq = true; for (auto &e : v) eq &= count(w, e) == 1; for (auto &e : w) eq &= count(v, e) == 1; sx_check((S == R) == eq && (S != R) == !eq && (R == S) == eq, "schemas are equal exactly when they name the same identifiers"); }
    sx_check(shows(S, v) && shows(R, w), "operands are unchanged"); }
SX_MAIN(schema_mismatch) { Schema S, R; unsigned a = sx_choose(2, "type"), b = sx_choose(2, "type"); S.add(P(0), sty(a)); R.add(P(1), sty(0)); R.add(P(0), sty(b)); bool threw = false; try { Schema I = S & R; sx_check(I.num_entries() == 1, "one common entry"); } catch (m::invalid_argument&) { threw = true; } sx_check(threw == (a != b), "common entries must have one type"); }
SX_MAIN(identifiers) { E a = pick(false), b = pick(false); auto x = id(a), y = id(b); sx_check((x == y) == a.same(b) && (x != y) == !a.same(b), "identifiers are equal exactly when prefix and name are"); if (a.same(b)) sx_check(std::hash<Schema::Identifier>{}(x) == std::hash<Schema::Identifier>{}(y), "hash"); sx_check(x.is_constant() == a.konst, "the constant identifier is recognised"); bool threw = false; try { Schema::Identifier z(ThreadSafePooledOptionalString(Catalog::Get().pool("")), P(0)); } catch (m::invalid_argument&) { threw = true; } sx_check(threw, "an empty prefix is rejected"); }
// ---------------------------------------------------------------------------------------------- tables
struct A { unsigned name; unsigned type; bool hidden, nn, uq, pk; };
static const PrimitiveType *aty(unsigned k) { switch (k) { case 0: return Type::Get_Integer(Type::TY_Vector, 4); case 1: return Type::Get_Boolean(Type::TY_Vector); default: return Type::Get_Varchar(Type::TY_Vector, 3); } }
static void table_shows(Table &T, const std::vector<A> &v) {
    const Table &C = T; unsigned hid = 0, npk = 0; for (auto &a : v) hid += a.hidden, npk += a.pk; sx_check(T.num_all_attrs() == v.size() && T.num_hidden_attrs() == hid && T.num_attrs() == v.size() - hid, "the numbers of attributes");
    for (unsigned i = 0; i < v.size(); i++) { auto &a = C.at(i); sx_check(a.id == i && a.name == P(v[i].name) && a.type == aty(v[i].type) && a.is_hidden == v[i].hidden && &a.table == &T && &C[i] == &a && &C.at(P(v[i].name)) == &a && &T[P(v[i].name)] == &a && T.has_attribute(P(v[i].name)), "an attribute is found by number and by name"); sx_check(a.is_unique() == (v[i].uq || (v[i].pk && npk == 1)), "a sole primary key is unique"); }
    for (unsigned n = 0; n < 4; n++) { bool in = false; for (auto &a : v) in |= a.name == n; bool threw = false; try { C.at(P(n)); } catch (std::out_of_range&) { threw = true; } sx_check(T.has_attribute(P(n)) == in && threw == !in, "a name that was not added is not found"); }
    bool threw = false; try { C.at(v.size()); } catch (std::out_of_range&) { threw = true; } sx_check(threw, "a number that was not given is rejected");
    unsigned i = 0; auto nx = [&](bool h) { while (i < v.size() && v[i].hidden != h) i++; return i < v.size() ? (int)i : -1; };
    bool ok = true; for (auto it = C.begin(); it != C.end(); ++it) { int j = nx(false); ok &= j >= 0 && it->id == (size_t)j; i++; } ok &= nx(false) < 0; i = 0; for (auto it = C.begin_hidden(); it != C.end_hidden(); it++) { int j = nx(true); ok &= j >= 0 && (*it).id == (size_t)j; i++; } ok &= nx(true) < 0; i = 0; for (auto it = C.cbegin_all(); it != C.cend_all(); ++it) ok &= it->id == i++; ok &= i == v.size(); sx_check(ok, "iteration lists visible, hidden, or all attributes in order");
    unsigned vis = 0; for (i = 0; i < v.size(); i++) if (!v[i].hidden) { sx_check(T.convert_id(vis) == i, "a visible number converts to the attribute's number"); auto it = C.begin(); it += vis; sx_check(it->id == i && it - C.begin() == (long)vis && C.end() - it == (long)(v.size() - hid - vis), "iterator arithmetic skips hidden attributes"); if (vis) { auto jt = it; --jt; sx_check(!jt->is_hidden && it - jt == 1, "stepping back skips hidden attributes"); auto kt = it; kt -= vis; sx_check(kt == C.begin() || C.begin()->is_hidden, "stepping back by several"); } vis++; }
    auto pk = T.primary_key(); i = 0; ok = pk.size() == npk; for (auto &r : pk) { while (i < v.size() && !v[i].pk) i++; ok &= i < v.size() && r.get().id == i; i++; } sx_check(ok, "the primary key lists its attributes");
    Schema S = T.schema(); ok = S.num_entries() == v.size(); for (i = 0; ok && i < v.size(); i++) { auto &e = S[i]; unsigned c = (v[i].nn ? 1 : 0) | ((v[i].uq || (v[i].pk && npk == 1)) ? 2 : 0) | (v[i].hidden ? 8 : 0); ok &= e.id == Schema::Identifier(T.name(), P(v[i].name)) && e.type == aty(v[i].type) && uint64_t(e.constraints) == c; } sx_check(ok, "the table's schema shows all attributes with their constraints"); Schema Al = T.schema(P(4)); ok = true; for (auto &e : Al) ok &= e.id.prefix == P(4); sx_check(ok && Al.num_entries() == v.size(), "the schema under an alias"); }
static void table_history(Table &T, std::vector<A> v, unsigned steps) {
    for (unsigned s = 0; s < steps; s++) switch (sx_choose(4, "op")) {
        case 0: { unsigned n = sx_choose(4, "name"), t = sx_choose(3, "type"); bool in = false; for (auto &a : v) in |= a.name == n; bool threw = false; try { T.push_back(P(n), aty(t)); } catch (std::invalid_argument&) { threw = true; } sx_check(threw == in, "a name is added once"); if (threw) sx_cover("duplicate"); else v.push_back({n, t, false, false, false, false}); break; }
        case 1: { unsigned n = sx_choose(4, "name"); int j = -1; for (unsigned i = 0; i < v.size(); i++) if (v[i].name == n) j = i; bool threw = false; try { T.add_primary_key(P(n)); } catch (std::out_of_range&) { threw = true; } sx_check(threw == (j < 0), "only attributes form the primary key"); if (j >= 0) v[j].pk = true; break; }
        case 2: { if (v.empty()) break; unsigned i = sx_choose(v.size(), "which"); v[i].hidden = !v[i].hidden; T[i].is_hidden = v[i].hidden; break; }
        case 3: { if (v.empty()) break; unsigned i = sx_choose(v.size(), "which"); v[i].nn = sx_choose(2, "nn"); v[i].uq = sx_choose(2, "uq"); T.at(P(v[i].name)).not_nullable = v[i].nn; T.at(i).unique = v[i].uq; break; } }
    table_shows(T, v); }
SX_MAIN(table) { ConcreteTable T(P(4)); table_history(T, {}, SX_THOROUGH ? 4 : 3); }
SX_MAIN(table3) { ConcreteTable T(P(4)); std::vector<A> v; for (unsigned i = 0; i < 3; i++) { T.push_back(P(i), aty(i)); v.push_back({i, i, (bool)sx_choose(2, "hidden"), false, false, false}); T[i].is_hidden = v[i].hidden; } table_history(T, v, SX_THOROUGH ? 3 : 2); }
SX_MAIN(table_scalar) { ConcreteTable T(P(4)); T.push_back(P(0), aty(0)); bool threw = false; try { T.push_back(P(1), Type::Get_Boolean(Type::TY_Scalar)); } catch (m::invalid_argument&) { threw = true; } sx_check(threw, "attributes are vectorial"); std::vector<A> v{{0, 0, false, false, false, false}}; table_shows(T, v); T.push_back(P(1), aty(1)); v.push_back({1, 1, false, false, false, false}); table_shows(T, v); }
SX_MAIN(versioned) { MultiVersioningTable T(std::make_unique<ConcreteTable>(P(4))); unsigned n = sx_choose(3, "attrs"); for (unsigned i = 0; i < n; i++) T.push_back(P(i), aty(i)); auto &C = Catalog::Get(); sx_check(T.num_attrs() == n && T.num_hidden_attrs() == 2 && T.num_all_attrs() == n + 2, "a versioned table hides two timestamps"); sx_check(T.at(C.pool("$ts_begin")).is_hidden && T.at(C.pool("$ts_end")).is_hidden && T.at(C.pool("$ts_end")).type == Type::Get_Integer(Type::TY_Vector, 8), "the timestamps"); unsigned i = 0; for (auto it = T.begin(); it != T.end(); ++it) { sx_check(it->name == P(i) && T.convert_id(i) == it->id, "visible attributes"); i++; } sx_check(i == n, "visible attributes"); bool threw = false; try { T.push_back(C.pool("$ts_end"), aty(0)); } catch (std::invalid_argument&) { threw = true; } sx_check(threw, "duplicate"); ConcreteTable O(P(4)); const Table &ct = T, &co = O; sx_check(ct.operator==(ct) && !ct.operator==(co) && !co.operator==(ct) && co.operator==(co), "a table equals itself only"); }
// ---------------------------------------------------------------------------------------------- databases
struct DummyIndex : idx::IndexBase { idx::IndexMethod m; memory::Memory mem; int loads = 0; DummyIndex(idx::IndexMethod m) : m(m) {} void bulkload(const Table &, const Schema &) override { loads++; } size_t num_entries() const override { return 0; } idx::IndexMethod method() const override { return m; } const memory::Memory &memory() const override { return mem; } size_t size_in_bytes() const override { return 0; } void dump(std::ostream &) const override {} void dump() const override {} };
struct Ix { unsigned name, table, attr; idx::IndexMethod m; bool valid; const idx::IndexBase *p; };
struct DB { Database *d; bool tab[3] = {}; Table *t[3] = {}; std::vector<Ix> ix; };
template<typename F> static bool rejects(F f) { try { f(); } catch (std::exception&) { return true; } catch (m::exception&) { return true; } return false; }
static void db_shows(DB &D) {
    unsigned n = 0; for (unsigned i = 0; i < 3; i++) { n += D.tab[i]; sx_check(D.d->has_table(P(i)) == D.tab[i], "a table is found exactly while it is there"); if (D.tab[i]) sx_check(&D.d->get_table(P(i)) == D.t[i] && D.t[i]->name() == P(i) && D.t[i]->num_attrs() == 2 && D.t[i]->at(1).name == P(1), "a table keeps its identity and attributes"); else sx_check(rejects([&] { D.d->get_table(P(i)); }), "an unknown table is rejected"); }
    sx_check(D.d->size() == n, "number of tables"); size_t c = 0; for (auto it = D.d->begin_tables(); it != D.d->end_tables(); ++it) c++; sx_check(c == n, "listing of tables");
    for (unsigned x = 0; x < 3; x++) { bool in = false; for (auto &i : D.ix) in |= i.name == x; sx_check(D.d->has_index(P(x)) == in, "an index is found exactly while it is there"); }
    for (unsigned t = 0; t < 2; t++) for (unsigned a = 0; a < 3; a++) for (auto m : {idx::IndexMethod::Array, idx::IndexMethod::Rmi}) { if (!D.tab[t] || a > 1) { sx_check(rejects([&] { D.d->has_index(P(t), P(a), m); }) && rejects([&] { D.d->get_index(P(t), P(a), m); }), "asking for an index of an unknown table or attribute is rejected"); continue; } const idx::IndexBase *w = nullptr; for (auto &i : D.ix) if (!w && i.valid && i.table == t && i.attr == a && i.m == m) w = i.p; sx_check(D.d->has_index(P(t), P(a), m) == (w != nullptr), "a valid index on the attribute is known"); if (w) sx_check(&D.d->get_index(P(t), P(a), m) == w, "the index on the attribute"); else sx_check(rejects([&] { D.d->get_index(P(t), P(a), m); }), "no index, no answer"); }
}
static void db_add(DB &D, unsigned i) { bool byname = sx_choose(2, "by name"), threw = false; try { if (byname) D.t[i] = &D.d->add_table(P(i)); else { Table *t = &D.d->add(std::make_unique<ConcreteTable>(P(i))); D.t[i] = t; } } catch (std::invalid_argument&) { threw = true; } sx_check(threw == D.tab[i], "a table name is added once"); if (threw) sx_cover("duplicate"); if (!threw) { D.tab[i] = true; D.t[i]->push_back(P(0), aty(0)); D.t[i]->push_back(P(1), aty(1)); } }
static void db_step(DB &D, unsigned first) { switch (first + sx_choose(6 - first, "op")) {
    case 0: db_add(D, sx_choose(3, "table")); break;
    case 1: { unsigned i = sx_choose(3, "table"); bool threw = false; try { D.d->drop_table(P(i)); } catch (std::invalid_argument&) { threw = true; } sx_check(threw == !D.tab[i], "only tables that exist are dropped"); if (D.tab[i]) { D.tab[i] = false; std::erase_if(D.ix, [&](auto &x) { return x.table == i; }); } break; }
    case 2: { unsigned x = sx_choose(3, "index"), t = sx_choose(2, "table"), a = sx_choose(3, "attr"); auto m = sx_choose(2, "method") ? idx::IndexMethod::Rmi : idx::IndexMethod::Array; bool in = false; for (auto &i : D.ix) in |= i.name == x; auto p = std::make_unique<DummyIndex>(m); auto *q = p.get(); bool threw = rejects([&] { D.d->add_index(std::move(p), P(t), P(a), P(x)); }); sx_check(threw == (in || !D.tab[t] || a > 1), "an index needs a new name, a table and an attribute"); if (!threw) D.ix.push_back({x, t, a, m, true, q}); break; }
    case 3: { unsigned x = sx_choose(3, "index"); bool in = false; for (auto &i : D.ix) in |= i.name == x; bool threw = rejects([&] { D.d->drop_index(P(x)); }); sx_check(threw == !in, "only indexes that exist are dropped"); std::erase_if(D.ix, [&](auto &i) { return i.name == x; }); break; }
    case 4: { unsigned t = sx_choose(3, "table"); bool threw = rejects([&] { D.d->drop_indexes(P(t)); }); sx_check(threw == !D.tab[t], "unknown table"); if (!threw) std::erase_if(D.ix, [&](auto &i) { return i.table == t; }); break; }
    case 5: { unsigned t = sx_choose(3, "table"); bool threw = rejects([&] { D.d->invalidate_indexes(P(t)); }); sx_check(threw == !D.tab[t], "unknown table"); for (auto &i : D.ix) if (i.table == t && !threw) i.valid = false; break; } } }
SX_MAIN(database) { auto &C = Catalog::Get(); DB D; D.d = &C.add_database(P(4)); for (unsigned s = 0; s < 3; s++) db_step(D, 0); db_shows(D); C.drop_database(P(4)); }
SX_MAIN(indexes) { auto &C = Catalog::Get(); DB D; D.d = &C.add_database(P(4)); for (unsigned i = 0; i < 2; i++) { D.t[i] = &D.d->add_table(P(i)); D.tab[i] = true; D.t[i]->push_back(P(0), aty(0)); D.t[i]->push_back(P(1), aty(1)); } for (unsigned x = 0; x < 2; x++) { auto p = std::make_unique<DummyIndex>(x ? idx::IndexMethod::Rmi : idx::IndexMethod::Array); unsigned t = sx_choose(2, "table"); D.ix.push_back({x, t, 0, p->m, true, p.get()}); D.d->add_index(std::move(p), P(t), P(0), P(x)); } for (unsigned s = 0; s < (SX_THOROUGH ? 3 : 2); s++) db_step(D, 1); db_shows(D); }
// ---------------------------------------------------------------------------------------------- catalog
SX_MAIN(databases) { auto &C = Catalog::Get(); Database *d[3] = {}; int use = -1; for (unsigned s = 0; s < (SX_THOROUGH ? 5 : 4); s++) { unsigned i = sx_choose(3, "db"); switch (sx_choose(4, "op")) {
    case 0: { bool threw = false; try { d[i] ? (void)C.add_database(P(i)) : (void)(d[i] = &C.add_database(P(i))); } catch (std::invalid_argument&) { threw = true; sx_check(d[i] != nullptr, "a new database is accepted"); } if (threw) sx_cover("duplicate"); else sx_check(&C.get_database(P(i)) == d[i], "added"); break; }
    case 1: { bool threw = rejects([&] { C.drop_database(P(i)); }); sx_check(threw == (!d[i] || use == (int)i), "a database is dropped when it exists and is not in use"); if (!threw) d[i] = nullptr; break; }
    case 2: if (d[i]) { C.set_database_in_use(*d[i]); use = i; } break;
    case 3: C.unset_database_in_use(); use = -1; break; }
    unsigned n = 0; for (unsigned j = 0; j < 3; j++) { n += d[j] != nullptr; sx_check(C.has_database(P(j)) == (d[j] != nullptr), "a database is found exactly while it is there"); if (d[j]) sx_check(&C.get_database(P(j)) == d[j] && d[j]->name == P(j), "a database keeps its identity"); else sx_check(rejects([&] { C.get_database(P(j)); }), "unknown database"); } sx_check(C.num_databases() == n && C.has_database_in_use() == (use >= 0), "number of databases"); if (use >= 0) sx_check(&C.get_database_in_use() == d[use], "the database in use"); else sx_check(rejects([&] { C.get_database_in_use(); }), "no database in use"); }
    Catalog::Clear(); sx_check(C.num_databases() == 0 && !C.has_database_in_use(), "clearing drops all databases"); }
static const char *FN[] = {"COUNT", "SUM", "AVG", "MIN", "MAX", "ISNULL", "INT"};
SX_MAIN(functions) { auto &C = Catalog::Get(); auto &D = C.add_database(P(4)); unsigned i = sx_choose(7, "fn"); auto n = C.pool(FN[i]); auto f = C.get_function(n); sx_check(f->name == n && D.get_function(n) == f && !f->is_UDF() && f->is_aggregate() == (i < 5) && f->is_scalar() == (i >= 5), "the standard functions are found under their names"); for (unsigned k = 0; k < 5; k++) sx_check(rejects([&] { C.get_function(P(k)); }) && rejects([&] { D.get_function(P(k)); }), "an unknown function is rejected"); }
SX_MAIN(components) { auto &C = Catalog::Get(); sx_check(rejects([&] { C.default_store(P(0)); }) && rejects([&] { C.default_data_layout(P(0)); }) && rejects([&] { C.data_layout(P(0)); }) && rejects([&] { C.default_cardinality_estimator(P(0)); }) && rejects([&] { C.create_cardinality_estimator(P(0), P(1)); }), "unknown components are rejected");
    ThreadSafePooledString old = C.default_data_layout_name(); auto &L = C.data_layout(); unsigned k = 0; for (auto &e : std::vector<std::string>{"PAX4M", "Row", "PAX4k", "PAX64k", "PAX512k", "PAX64M"}) { auto n = C.pool(e.c_str()); if (rejects([&] { C.data_layout(n); })) continue; k++; C.default_data_layout(n); sx_check(C.default_data_layout_name() == n && &C.data_layout() == &C.data_layout(n), "the default is the component named"); } sx_check(k >= 2 && &C.data_layout(old) == &L, "other components stay"); }
// ---------------------------------------------------------------------------------------------- commands
SX_MAIN(commands) { auto &C = Catalog::Get(); Options::Get().quiet = true; std::ostringstream out, err; Diagnostic diag(false, out, err); DB D; D.d = &C.add_database(P(4)); C.set_database_in_use(*D.d);
    for (unsigned s = 0; s < (SX_THOROUGH ? 4 : 3); s++) { unsigned i = sx_choose(2, "name"); diag.clear(); bool fails = false; switch (sx_choose(5, "command")) {
        case 0: { auto t = std::make_unique<ConcreteTable>(P(i)); t->push_back(P(0), aty(0)); t->push_back(P(1), aty(1)); Table *p = t.get(); CreateTable c(std::move(t)); c.execute(diag); fails = D.tab[i]; if (!fails) { D.tab[i] = true; D.t[i] = p; sx_check(p->store().num_rows() == 0, "a new table is empty"); } else sx_cover("duplicate"); break; }
        case 1: { unsigned j = sx_choose(3, "second"); std::vector<ThreadSafePooledString> ns; ns.push_back(P(i)); if (j < 2) ns.push_back(P(j)); DropTable c(ns); c.execute(diag); unsigned e = 0; for (unsigned k : {i, j}) if (k < 2) { if (D.tab[k]) { D.tab[k] = false; std::erase_if(D.ix, [&](auto &x) { return x.table == k; }); } else e++; } sx_check(diag.num_errors() == e, "every name that is not a table is diagnosed"); fails = e; break; }
        case 2: { if (!D.tab[0]) break; auto p = std::make_unique<DummyIndex>(idx::IndexMethod::Array); auto q = p.get(); bool in = false; for (auto &x : D.ix) in |= x.name == i; fails = in; CreateIndex c(std::move(p), P(0), P(1), P(i)); c.execute(diag); if (!fails) { D.ix.push_back({i, 0, 1, idx::IndexMethod::Array, true, q}); sx_check(q->loads == 1, "a created index is loaded"); } break; }
        case 3: { bool in = false; for (auto &x : D.ix) in |= x.name == i; DropIndex c(std::vector<ThreadSafePooledString>{P(i)}); c.execute(diag); fails = !in; std::erase_if(D.ix, [&](auto &x) { return x.name == i; }); break; }
        case 4: { unsigned n = 3 + i; if (sx_choose(2, "drop")) { fails = !C.has_database(P(n)) || n == 4; DropDatabase c(P(n)); c.execute(diag); } else { fails = C.has_database(P(n)); CreateDatabase c(P(n)); c.execute(diag); UseDatabase u(P(n)); u.execute(diag); sx_check(C.get_database_in_use().name == P(n), "USE takes the database named"); C.set_database_in_use(*D.d); } break; } }
        sx_check((diag.num_errors() != 0) == fails, "a command is diagnosed exactly when it cannot be carried out"); }
    db_shows(D); }
