// C12: SQL types
#include "sx.h"
#include <mutable/catalog/Type.hpp>
#include <sstream>
#include <string>
using namespace m;
// a type as it is declared, independent of how the code represents it
struct Decl { unsigned kind; bool vec; uint64_t len; unsigned p, s; };
enum { ERR, NONE, BOOL, BITMAP, CHAR, VARCHAR, DATE, DATETIME, INT, FLOAT, DOUBLE, DEC, NKIND };
static Decl decl(unsigned first = 0, bool small = false) {
    Decl d{first + (unsigned)sx_choose(NKIND - first, "kind"), false, 0, 0, 0};
    if (d.kind >= BOOL) d.vec = sx_choose(2, "vec");
    if (d.kind == BITMAP || d.kind == CHAR || d.kind == VARCHAR) { d.len = sx_sym(SX_THOROUGH ? 12 : 8, "len"); }
    if (d.kind == INT) d.p = 1u << sx_choose(4, "bytes");
    if (d.kind == DEC) { d.p = 1 + sx_choose(small ? 3 : 19, "digits"); d.s = sx_choose(3, "scale"); d.s = d.s == 0 ? 0 : d.s == 1 ? d.p / 2 : d.p; }
    return d; }
static Type::category_t cat(const Decl &d) { return d.vec ? Type::TY_Vector : Type::TY_Scalar; }
static const Type *make(const Decl &d) { switch (d.kind) {
    case ERR: return Type::Get_Error(); case NONE: return Type::Get_None(); case BOOL: return Type::Get_Boolean(cat(d)); case BITMAP: return Type::Get_Bitmap(cat(d), d.len); case CHAR: return Type::Get_Char(cat(d), d.len); case VARCHAR: return Type::Get_Varchar(cat(d), d.len);
    case DATE: return Type::Get_Date(cat(d)); case DATETIME: return Type::Get_Datetime(cat(d)); case INT: return Type::Get_Integer(cat(d), d.p); case FLOAT: return Type::Get_Float(cat(d)); case DOUBLE: return Type::Get_Double(cat(d)); default: return Type::Get_Decimal(cat(d), d.p, d.s); } }
static bool same(const Decl &a, const Decl &b) { return a.kind == b.kind && a.vec == b.vec && a.len == b.len && a.p == b.p && a.s == b.s; }
static unsigned family(unsigned k) { return k == CHAR || k == VARCHAR ? CHAR : k >= INT ? INT : k; }
static void identity(const Decl &a, const Decl &b) {
    const Type *x = make(a), *y = make(b); bool eq = same(a, b); if (eq) sx_cover("equal types");
    sx_check((*x == *y) == eq && (*y == *x) == eq && (*x != *y) == !eq, "two types are equal exactly when they are declared alike"); sx_check((x == y) == eq, "equal types are one object"); if (eq) sx_check(x->hash() == y->hash() && std::hash<Type>{}(*x) == std::hash<Type>{}(*y), "equal types hash alike");
    bool cmp = family(a.kind) == family(b.kind) && a.kind != ERR && a.kind != NONE && a.kind != BITMAP; sx_check(is_comparable(x, y) == cmp, "types are comparable exactly within a family"); sx_check(make(a) == x && make(b) == y, "making a type again gives the same object"); }
SX_MAIN(pairs_text) { Decl a = decl(), b = decl(); sx_assume((a.kind == BITMAP || a.kind == CHAR || a.kind == VARCHAR) || (a.kind != DEC && b.kind != DEC)); if (a.kind != DEC && b.kind != DEC) identity(a, b); else { sx_assume(b.p <= 3); identity(a, b); } }
SX_MAIN(pairs_numeric) { Decl a = decl(INT), b = decl(INT); identity(a, b); }
SX_MAIN(predicates) { Decl d = decl(); const Type *t = make(d); unsigned k = d.kind;
    sx_check(t->is_error() == (k == ERR) && t->is_none() == (k == NONE) && t->is_primitive() == (k >= BOOL) && t->is_boolean() == (k == BOOL) && t->is_bitmap() == (k == BITMAP) && t->is_character_sequence() == (k == CHAR || k == VARCHAR) && t->is_date() == (k == DATE) && t->is_date_time() == (k == DATETIME), "the type is of its kind only");
    sx_check(t->is_numeric() == (k >= INT) && t->is_integral() == (k == INT) && t->is_decimal() == (k == DEC) && t->is_floating_point() == (k == FLOAT || k == DOUBLE) && t->is_float() == (k == FLOAT) && t->is_double() == (k == DOUBLE), "the type is of its kind only");
    sx_check(is_convertible<bool>(t) == (k == BOOL), "convertible to bool"); sx_check(is_convertible<std::string>(t) == (k == CHAR || k == VARCHAR) && is_convertible<int>(t) == (k >= INT) && is_convertible<double>(t) == (k >= INT), "convertible to host types of the same family");
    if (k == ERR) { for (int i = 0; i < 2; i++) { bool threw = false; try { i ? t->size() : t->alignment(); } catch (std::logic_error&) { threw = true; } sx_check(threw, "no size is invented for the error type"); } return; }
    uint64_t want = 0, al = 1; switch (k) { case NONE: want = 0; break; case BOOL: want = 1; break; case BITMAP: want = d.len; break; case CHAR: want = 8 * d.len; al = 8; break; case VARCHAR: want = 8 * (d.len + 1); al = 8; break; case DATE: want = al = 32; break; case DATETIME: want = al = 64; break; case INT: want = al = 8 * d.p; break; case FLOAT: want = al = 32; break; case DOUBLE: want = al = 64; break; }
    if (k != DEC) { sx_check(t->size() == want && t->alignment() == al, "size and alignment in bits are those of the declaration"); }
    else { uint64_t z = t->size(); unsigned __int128 top = 1; for (unsigned i = 0; i < d.p; i++) top *= 10; sx_check(z >= 8 && (z & (z - 1)) == 0 && z <= 64 && ((unsigned __int128)1 << z) >= top, "a decimal occupies a power of two of bits that has room for its digits"); sx_check(z <= 8 || ((unsigned __int128)1 << (z / 2)) < top, "a decimal occupies no more than it needs"); sx_check(t->alignment() == z, "a decimal is aligned to its size"); }
    uint64_t a = t->alignment(); sx_check(a && (a & (a - 1)) == 0, "alignment is a power of two");
    if (k < BOOL) return;
    auto p = as<const PrimitiveType>(t); sx_check(p->is_scalar() == !d.vec && p->is_vectorial() == d.vec, "category"); Decl s = d, v = d; s.vec = false; v.vec = true; const Type *S = make(s), *V = make(v); sx_check(p->as_scalar() == S && p->as_vectorial() == V, "conversion to scalar or vectorial changes the category only"); sx_check(p->as_scalar()->as_vectorial() == V && S != V, "conversions undo each other");
    switch (k) { case BITMAP: sx_check(as<const Bitmap>(t)->length == d.len, "length"); break; case CHAR: case VARCHAR: sx_check(as<const CharacterSequence>(t)->length == d.len && as<const CharacterSequence>(t)->is_varying == (k == VARCHAR), "length"); break; case INT: sx_check(as<const Numeric>(t)->precision == d.p && as<const Numeric>(t)->scale == 0, "precision"); break; case DEC: sx_check(as<const Numeric>(t)->precision == d.p && as<const Numeric>(t)->scale == d.s, "precision and scale"); break; } }
// an independent statement of the numeric join
static unsigned digits_in(unsigned bits) { unsigned d = 0; unsigned __int128 t = 10, lim = (unsigned __int128)1 << bits; while (t <= lim) t *= 10, d++; return d; }
static Decl join(const Decl &a, const Decl &b) {
    Decl r{0, a.vec || b.vec, 0, 0, 0}; auto bits = [](const Decl &d) { return d.kind == INT ? 8 * d.p : d.kind == FLOAT ? 32u : 64u; };
    if (a.kind == DEC || b.kind == DEC) { auto dg = [&](const Decl &d) { return d.kind == DEC ? d.p : digits_in(bits(d)); }; r.kind = DEC; r.p = std::max(dg(a), dg(b)); r.s = std::max(a.s, b.s); return r; }
    unsigned w = std::max(bits(a), bits(b)); if (a.kind == INT && b.kind == INT) { r.kind = INT; r.p = w / 8; } else r.kind = w == 64 ? DOUBLE : FLOAT; return r; }
SX_MAIN(joins) { Decl a = decl(INT), b = decl(INT); auto x = as<const Numeric>(make(a)), y = as<const Numeric>(make(b)); auto j = arithmetic_join(x, y); sx_check(j == make(join(a, b)), "the join is the least numeric type of the wider kind, width, digits and scale"); sx_check(arithmetic_join(y, x) == j, "the join does not depend on the order"); sx_check(arithmetic_join(x, x) == x && arithmetic_join(x, j) == j && arithmetic_join(j, y) == j, "the join absorbs its operands"); sx_check(j->size() >= x->size() && j->size() >= y->size(), "the join is no smaller than its operands"); }
#if SX_THOROUGH
SX_MAIN(join3) { Decl a = decl(INT, true), b = decl(INT, true), c = decl(INT, true); auto x = as<const Numeric>(make(a)), y = as<const Numeric>(make(b)), z = as<const Numeric>(make(c)); sx_check(arithmetic_join(arithmetic_join(x, y), z) == arithmetic_join(x, arithmetic_join(y, z)), "joining is associative"); }
#else
SX_MAIN(join3) { Decl a = decl(INT, true), b = decl(INT, true), c = decl(INT, true); a.vec = b.vec = c.vec = true; auto x = as<const Numeric>(make(a)), y = as<const Numeric>(make(b)), z = as<const Numeric>(make(c)); sx_check(arithmetic_join(arithmetic_join(x, y), z) == arithmetic_join(x, arithmetic_join(y, z)), "joining is associative"); }
#endif
// printing: the text spells the declaration
static std::string num(uint64_t n) { std::string s; do s.insert(s.begin(), char('0' + n % 10)); while (n /= 10); return s; }
SX_MAIN(printing) { Decl d = decl(BOOL); if (d.kind == BITMAP || d.kind == CHAR || d.kind == VARCHAR) { unsigned pick = sx_choose(6, "length"); static const uint64_t L[] = {0, 1, 9, 10, 255, 4294967296ull}; d.len = L[pick]; } const Type *t = make(d); std::ostringstream o; o << *t; std::string w;
    switch (d.kind) { case BOOL: w = "BOOL"; break; case BITMAP: w = "BITMAP(" + num(d.len) + ")"; break; case CHAR: w = "CHAR(" + num(d.len) + ")"; break; case VARCHAR: w = "VARCHAR(" + num(d.len) + ")"; break; case DATE: w = "DATE"; break; case DATETIME: w = "DATETIME"; break; case INT: w = "INT(" + num(d.p) + ")"; break; case FLOAT: w = "FLOAT"; break; case DOUBLE: w = "DOUBLE"; break; default: w = "DECIMAL(" + num(d.p) + ", " + num(d.s) + ")"; }
    sx_check(o.str() == w, "a printed type spells its declaration"); }
// function types
static const Type *simple(unsigned k) { switch (k) { case 0: return Type::Get_Integer(Type::TY_Vector, 4); case 1: return Type::Get_Integer(Type::TY_Scalar, 4); case 2: return Type::Get_Boolean(Type::TY_Vector); default: return Type::Get_Double(Type::TY_Vector); } }
SX_MAIN(functions) { unsigned r[2], n[2], p[2][3]; const Type *f[2]; for (int i = 0; i < 2; i++) { r[i] = sx_choose(SX_THOROUGH ? 4 : 3, "ret"); n[i] = sx_choose(SX_THOROUGH ? 4 : 3, "params"); std::vector<const Type*> ps; for (unsigned j = 0; j < n[i]; j++) ps.push_back(simple(p[i][j] = sx_choose(3, "param"))); f[i] = Type::Get_Function(simple(r[i]), ps); }
    bool eq = r[0] == r[1] && n[0] == n[1]; if (eq) for (unsigned j = 0; j < n[0]; j++) eq &= p[0][j] == p[1][j]; if (eq) sx_cover("equal types"); sx_check((*f[0] == *f[1]) == eq && (f[0] == f[1]) == eq, "function types are equal exactly when signatures are"); if (eq) sx_check(f[0]->hash() == f[1]->hash(), "equal types hash alike"); sx_check(!is_comparable(f[0], f[1]) && !f[0]->is_primitive() && !f[0]->is_error() && !f[0]->is_none(), "a function type is nothing else");
    const Type *o = simple(r[0]); sx_check(*o != *f[0] && *f[0] != *o, "a function type differs from every other"); auto F = as<const FnType>(f[0]); bool ok = F->return_type == simple(r[0]) && F->parameter_types.size() == n[0]; for (unsigned j = 0; j < n[0]; j++) ok &= F->parameter_types[j] == simple(p[0][j]); sx_check(ok, "signature"); }
SX_MAIN(runtime_types) { Decl d{INT, true, 0, 1, 0}; sx_check(get_runtime_type<int8_t>() == make(d) && get_runtime_type<uint8_t>() == make(d), "host type"); d.p = 2; sx_check(get_runtime_type<int16_t>() == make(d), "host type"); d.p = 4; sx_check(get_runtime_type<int32_t>() == make(d), "host type"); d.p = 8; sx_check(get_runtime_type<int64_t>() == make(d), "host type"); d.p = 0; d.kind = FLOAT; sx_check(get_runtime_type<float>() == make(d), "host type"); d.kind = DOUBLE; sx_check(get_runtime_type<double>() == make(d), "host type"); }
