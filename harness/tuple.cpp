// C22: tuples
#include "sx.h"
#include <mutable/IR/Tuple.hpp>
#include <mutable/catalog/Schema.hpp>
#include <bit>
#include <sstream>
using namespace m;
static ThreadSafeStringPool *SP; static void pools() { static ThreadSafeStringPool p; SP = &p; }
static const Type *ty(unsigned k) {
    switch (k) { case 0: return Type::Get_Integer(Type::TY_Vector, 8); case 1: return Type::Get_Char(Type::TY_Vector, 3); case 2: return Type::Get_Boolean(Type::TY_Vector); case 3: return Type::Get_Double(Type::TY_Vector); case 4: return Type::Get_Float(Type::TY_Vector); case 5: return Type::Get_Integer(Type::TY_Vector, 4); case 6: return Type::Get_Date(Type::TY_Vector); case 7: return Type::Get_Varchar(Type::TY_Vector, 2); default: return Type::Get_Decimal(Type::TY_Vector, 8, 2); } }
static bool is_str(unsigned k) { return k == 1 || k == 7; }
struct Cell { bool null = true, given = false; uint64_t bits = 0; char s[4] = {0, 0, 0, 0}; };
static Value mk(unsigned k, uint64_t b) { switch (k) { case 2: return Value(bool(b & 1)); case 3: return Value(std::bit_cast<double>(b)); case 4: return Value(std::bit_cast<float>((uint32_t)b)); default: return Value((int64_t)b); } }
static bool shows(const Tuple &t, unsigned i, unsigned k, const Cell &c) {
    if (c.null) return true;
    const Value &v = t.get(i);
    switch (k) { case 2: return v.as_b() == bool(c.bits & 1); case 3: return std::bit_cast<uint64_t>(v.as_d()) == c.bits; case 4: return std::bit_cast<uint32_t>(v.as_f()) == (uint32_t)c.bits; case 1: case 7: { bool eq = true; const char *p = v.as<const char*>(); for (unsigned j = 0; j < 4; j++) { eq &= p[j] == c.s[j]; if (!c.s[j]) break; } return eq; } default: return v.as_i() == (int64_t)c.bits; } }
static void agree(const Tuple &t, const unsigned *k, const Cell *c, unsigned n, const char *msg) { for (unsigned i = 0; i < n; i++) { sx_check(t.is_null(i) == c[i].null, msg); sx_check(shows(t, i, k[i], c[i]), msg); } }
static void put(Tuple &t, unsigned i, unsigned k, Cell &c) {
    if (is_str(k)) { char *p = (char*)t[i].as_p(); unsigned len = sx_choose(k == 1 ? 4 : 3, "len"); for (unsigned j = 0; j < 4; j++) c.s[j] = j < len ? (char)(1 + (sx_sym(8, "ch") & 0x7f)) : 0; for (unsigned j = 0; j <= len; j++) p[j] = c.s[j]; t.not_null(i); c.null = false; return; }
    c.bits = sx_sym(64, "v"); t.set(i, mk(k, c.bits)); c.null = false; c.given = true; }
static Schema schema(const unsigned *k, unsigned n) { pools(); Schema S; static const char *nm[] = {"a", "b", "c", "d"}; for (unsigned i = 0; i < n; i++) S.add(Schema::Identifier((*SP)(nm[i])), ty(k[i])); return S; }
// random access history on a tuple of three attributes
static void history(unsigned types) {
    unsigned n = 3, k[3]; for (unsigned i = 0; i < n; i++) k[i] = i == 0 ? types % 9 : i == 1 ? (sx_choose(2, "string") ? 1 : 0) : (types + 4) % 9; Schema S = schema(k, n); Cell c[3]; Tuple t(S); agree(t, k, c, n, "a fresh tuple is all NULL");
    for (unsigned step = 0; step < 3; step++) { unsigned i = sx_choose(n, "attr"); switch (sx_choose(4, "op")) { case 0: put(t, i, k[i], c[i]); break; case 1: t.null(i); c[i].null = true; break; case 2: { if (is_str(k[i]) || !c[i].given) { t.null(i); c[i].null = true; break; } bool nl = sx_bool("null"); uint64_t b = sx_sym(64, "v"); t.set(i, mk(k[i], b), nl); if (!nl) c[i].bits = b; else c[i].given = false; c[i].null = nl; break; } case 3: t.clear(); for (auto &x : c) x.null = true; break; } }
    agree(t, k, c, n, "an attribute shows what was last set");
    { Tuple d = t.clone(S); agree(d, k, c, n, "a clone shows the same values and NULLs"); for (unsigned i = 0; i < n; i++) put(d, i, k[i], *new (new Cell) Cell); agree(t, k, c, n, "changing the clone leaves the original"); }
    Tuple m(std::move(t)); agree(m, k, c, n, "moving keeps the contents"); Tuple e; e = std::move(m); agree(e, k, c, n, "moving keeps the contents");
}
SX_MAIN(history_ints) { history(0); }
SX_MAIN(history_strings) { history(7); }
SX_MAIN(history_others) { history(2 + sx_choose(5, "type")); }
SX_MAIN(from_types) { unsigned k[2] = {(unsigned)sx_choose(9, "type"), (unsigned)sx_choose(9, "type")}; Tuple t(std::vector<const Type*>{ty(k[0]), ty(k[1])}); Cell c[2]; agree(t, k, c, 2, "a fresh tuple is all NULL"); put(t, 0, k[0], c[0]); agree(t, k, c, 2, "values"); put(t, 1, k[1], c[1]); agree(t, k, c, 2, "values"); t.null(0); c[0].null = true; agree(t, k, c, 2, "values"); }
// equality and hashing of non-string attributes
SX_MAIN(equality) {
    unsigned k[3] = {0, 2, 5}; Schema S = schema(k, 3); Tuple a(S), b(S); uint64_t x[3], y[3]; bool nx[3], ny[3];
    for (unsigned i = 0; i < 3; i++) { x[i] = sx_sym(64, "x"); y[i] = sx_sym(64, "y"); nx[i] = sx_choose(2, "null"); ny[i] = sx_choose(2, "null"); if (k[i] == 2) x[i] &= 1, y[i] &= 1; a.set(i, mk(k[i], x[i]), nx[i]); b.set(i, mk(k[i], y[i]), ny[i]); }
    bool eq = true; for (unsigned i = 0; i < 3; i++) eq &= nx[i] == ny[i] && (nx[i] || x[i] == y[i]);
    sx_check((a == b) == eq && (a != b) == !eq, "equal exactly when NULLs and values agree"); sx_check(a == a && (b == a) == eq, "equality is reflexive and symmetric"); if (eq) sx_check(std::hash<Tuple>{}(a) == std::hash<Tuple>{}(b), "equal tuples hash alike");
}
SX_MAIN(insertion) { // a tuple placed inside another one
    unsigned k[4] = {0, 5, 2, 3}; Schema S = schema(k, 4); Tuple t(S); Cell c[4]; for (unsigned i = 0; i < 4; i++) put(t, i, k[i], c[i]); if (sx_choose(2, "null before")) { unsigned i = sx_choose(4, "which"); t.null(i); c[i].null = true; }
    unsigned pos = sx_choose(4, "pos"), len = sx_choose(5 - pos, "len"); unsigned kk[4]; for (unsigned i = 0; i < len; i++) kk[i] = k[pos + i]; Schema R = schema(kk, len); Tuple o(R); Cell d[4]; for (unsigned i = 0; i < len; i++) { put(o, i, kk[i], d[i]); if (sx_choose(2, "null")) { o.null(i); d[i].null = true; } }
    t.insert(o, pos, len); for (unsigned i = 0; i < len; i++) c[pos + i] = d[i]; agree(t, k, c, 4, "inserted attributes replace the old ones, the others stay"); agree(o, kk, d, len, "the inserted tuple is unchanged");
}
SX_MAIN(swapping) { unsigned k[2] = {1, 0}, q[3] = {5, 7, 3}; Schema S = schema(k, 2), R = schema(q, 3); Tuple a(S), b(R); Cell c[2], d[3]; for (unsigned i = 0; i < 2; i++) if (sx_choose(2, "set")) put(a, i, k[i], c[i]); for (unsigned i = 0; i < 3; i++) if (sx_choose(2, "set")) put(b, i, q[i], d[i]); swap(a, b); agree(b, k, c, 2, "swapped"); agree(a, q, d, 3, "swapped"); }
SX_MAIN(values) { // conversions of single values
    uint64_t b = sx_sym(64, "bits"); Value i((int64_t)b), s((int32_t)b), u((uint8_t)b), l(bool(b & 1)), f(std::bit_cast<float>((uint32_t)b)), d(std::bit_cast<double>(b)), p((void*)b); sx_check(i.as_i() == (int64_t)b && (int64_t)i == (int64_t)b && (int32_t)i == (int32_t)b, "integer"); sx_check(s.as_i() == (int32_t)b && u.as_i() == (uint8_t)b, "widened integer"); sx_check(l.as_b() == bool(b & 1) && (bool)l == bool(b & 1), "boolean"); sx_check(std::bit_cast<uint32_t>(f.as_f()) == (uint32_t)b, "float"); sx_check(std::bit_cast<uint64_t>(d.as_d()) == b, "double"); sx_check(p.as_p() == (void*)b, "pointer");
    uint64_t c = sx_sym(64, "other"); sx_check((Value((int64_t)b) == Value((int64_t)c)) == (b == c) && (Value((int64_t)b) != Value((int64_t)c)) == (b != c), "equality"); sx_check((Value(bool(b & 1)) == Value(bool(c & 1))) == ((b & 1) == (c & 1)), "equality of booleans"); if (b == c) sx_check(std::hash<Value>{}(Value((int64_t)b)) == std::hash<Value>{}(Value((int64_t)c)), "hash"); Value w = i; w.as_i() = (int64_t)c; sx_check(i.as_i() == (int64_t)b && w.as_i() == (int64_t)c, "copies are independent");
}
