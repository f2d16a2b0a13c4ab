// C03: tuples written through a data layout and read back
#include "sqlenv.hpp"
#include <mutable/storage/DataLayout.hpp>
#include <mutable/storage/DataLayoutFactory.hpp>
#include <mutable/storage/Store.hpp>
#include <cstdlib>
using namespace m::storage;
enum { KB, K1, K2, K4, K8, KF, KD, KC, KV, KX, KT, KZ, NK };
static const PrimitiveType *type_of(unsigned k) { switch (k) { case KB: return BO(); case K1: return I1(); case K2: return I2(); case K4: return I4(); case K8: return I8(); case KF: return FL(); case KD: return DB(); case KC: return CH(3); case KV: return VC(2); case KX: return DE(1, 0); case KT: return DA(); default: return DE(12, 2); } }
struct Val { bool null; int64_t i; float f; double d; char s[4]; };
static Val value(unsigned k, bool nullable, bool lengths = true, int fixed = -1) {
    if (k == KB && fixed >= 0) { Val v{}; v.i = fixed & 1; return v; }   // booleans are stored by case distinction: not every one is symbolic
    Val v{}; if (nullable && sx_choose(2, "null")) { v.null = true; return v; }
    switch (k) { case KB: v.i = sx_bool("bool"); break; case K1: v.i = sx_make<int8_t>("i8"); break; case K2: v.i = sx_make<int16_t>("i16"); break; case K4: case KT: v.i = sx_make<int32_t>("i32"); break; case K8: v.i = sx_make<int64_t>("i64"); break; case KF: v.f = sx_make<float>("f"); break; case KD: v.d = sx_make<double>("d"); break;
        case KC: case KV: { unsigned max = k == KC ? 3 : 2, n = lengths ? sx_choose(max + 1, "length") : max; for (unsigned j = 0; j < n; j++) { v.s[j] = sx_make<char>("c"); sx_assume(v.s[j] != 0); } break; } case KX: v.i = (int64_t)sx_range(0, 18, "digit", 8) - 9; break; default: v.i = sx_make<int32_t>("cents"); break; }
    return v; }
static void put(Tuple &t, unsigned i, unsigned k, const Val &v) { if (v.null) { t.null(i); return; } switch (k) { case KB: t.set(i, Value(bool(v.i))); break; case KF: t.set(i, Value(v.f)); break; case KD: t.set(i, Value(v.d)); break; case KC: case KV: t.not_null(i); memcpy(t[i].as_p(), v.s, k == KC ? 4 : 3); break; default: t.set(i, Value(v.i)); } }
static uint64_t bits(double d) { uint64_t x; memcpy(&x, &d, 8); return x; } static uint32_t bits(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
static void same(const Tuple &t, unsigned i, unsigned k, const Val &v) { sx_check(t.is_null(i) == v.null, "NULL exactly where NULL was written"); if (v.null) return; switch (k) { case KB: sx_check(t[i].as_b() == (bool)v.i, "the boolean written"); break; case KF: sx_check(bits(t[i].as_f()) == bits(v.f), "the float written"); break; case KD: sx_check(bits(t[i].as_d()) == bits(v.d), "the double written"); break; case KC: case KV: sx_check(strcmp((const char*)t[i].as_p(), v.s) == 0, "the string written"); break; default: sx_check(t[i].as_i() == v.i, "the integer written"); } }
static DataLayout layout(unsigned which, std::vector<const Type*> ts) { switch (which) { case 0: return RowLayoutFactory().make(ts); case 1: return PAXLayoutFactory(PAXLayoutFactory::NTuples, 2).make(ts); case 2: return PAXLayoutFactory(PAXLayoutFactory::NTuples, 16).make(ts); case 3: return PAXLayoutFactory(PAXLayoutFactory::NTuples, 1).make(ts); case 4: return PAXLayoutFactory(PAXLayoutFactory::NTuples, 9).make(ts); default: return PAXLayoutFactory(PAXLayoutFactory::NBytes, 64).make(ts); } }
static const char *const names[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"};
struct Rel { Schema S; std::vector<unsigned> k; std::vector<bool> nullable; std::vector<const Type*> ts; void add(unsigned kind, bool null) { S.add({Catalog::Get().pool(names[k.size()])}, type_of(kind), null ? Schema::entry_type::constraints_t(0) : Schema::entry_type::NOT_NULLABLE); k.push_back(kind); nullable.push_back(null); ts.push_back(type_of(kind)); } unsigned n() const { return k.size(); } };
// memory for rows 0..n-1, holding arbitrary bytes before anything is written
static char *space(const DataLayout &L, unsigned n) { unsigned per = as<const DataLayout::INode>(L.child()).num_tuples(), blocks = (n + per - 1) / per; size_t sz = blocks * L.stride_in_bits() / 8; char *p = (char*)aligned_alloc(8, (sz + 7) / 8 * 8); memset(p, sx_choose(2, "filled with ones") ? 0xff : 0, sz); return p; }
static void write(const Rel &R, const DataLayout &L, char *mem, unsigned from, const std::vector<std::vector<Val>> &rows) { StackMachine sm = Interpreter::compile_store(R.S, mem, L, R.S, from); Tuple in(R.S); Tuple *args[] = {&in}; for (auto &r : rows) { for (unsigned i = 0; i < R.n(); i++) put(in, i, R.k[i], r[i]); sm(args); } }
static void read(const Rel &R, const DataLayout &L, char *mem, unsigned from, const std::vector<std::vector<Val>> &rows, std::vector<unsigned> order) {
    Schema P; for (unsigned i : order) P.add({Catalog::Get().pool(names[i])}, type_of(R.k[i])); StackMachine sm = Interpreter::compile_load(P, mem, L, R.S, from); Tuple out(P); Tuple *args[] = {&out};
    for (unsigned r = from; r < rows.size(); r++) { sm(args); for (unsigned j = 0; j < order.size(); j++) same(out, j, R.k[order[j]], rows[r][order[j]]); } }
static std::vector<unsigned> all(const Rel &R) { std::vector<unsigned> v; for (unsigned i = 0; i < R.n(); i++) v.push_back(i); return v; }
// one attribute of any type next to a boolean: rows across block borders
SX_MAIN(types) { Rel R; unsigned k = sx_choose(NK, "type"); bool null = sx_choose(2, "nullable"); bool first = sx_choose(2, "first"); if (first) R.add(KB, true); R.add(k, null); if (!first) R.add(KB, false); DataLayout L = layout(sx_choose(6, "layout"), R.ts);
    unsigned n = 3; std::vector<std::vector<Val>> rows; for (unsigned r = 0; r < n; r++) { std::vector<Val> v; for (unsigned i = 0; i < R.n(); i++) v.push_back(value(R.k[i], R.nullable[i] && (r != 1 || i == 0), r == 0)); rows.push_back(v); }
    char *mem = space(L, n); write(R, L, mem, 0, rows); read(R, L, mem, 0, rows, all(R)); sx_cover("read"); free(mem); }
// rows read from and written to any position, in several steps
SX_MAIN(positions) { Rel R; static const unsigned K[] = {KB, K4, KC, K1}; R.add(K[sx_choose(4, "type")], true); R.add(KB, true); DataLayout L = layout(sx_choose(6, "layout"), R.ts); unsigned n = 2 + sx_choose(SX_THOROUGH ? 17 : 10, "rows"), cut = sx_choose(n, "cut"), from = sx_choose(n, "from"); std::vector<std::vector<Val>> rows; for (unsigned r = 0; r < n; r++) { std::vector<Val> v; for (unsigned i = 0; i < 2; i++) { v.push_back(value(R.k[i], false, false, r == from || r == cut ? -1 : int(r * 5 + i) / 2)); if (((r * 5 + i) % 3) == 0) v.back().null = true; } rows.push_back(v); }
    char *mem = space(L, n); write(R, L, mem, 0, {rows.begin(), rows.begin() + cut}); write(R, L, mem, cut, {rows.begin() + cut, rows.end()});
    read(R, L, mem, from, rows, all(R)); sx_cover("read"); free(mem); }
// overwriting one row leaves the others as they were
SX_MAIN(overwrite) { Rel R; static const unsigned K[] = {KB, K2, KV, KD}; R.add(KB, true); R.add(K[sx_choose(4, "type")], true); R.add(KB, false); DataLayout L = layout(sx_choose(6, "layout"), R.ts); unsigned n = 4, w = sx_choose(n, "row"); std::vector<std::vector<Val>> rows; for (unsigned r = 0; r < n; r++) { std::vector<Val> v; for (unsigned i = 0; i < 3; i++) v.push_back(value(R.k[i], false, false, r == (w ^ 1) ? -1 : r + i)); rows.push_back(v); }
    char *mem = space(L, n); write(R, L, mem, 0, rows); for (unsigned i = 0; i < 3; i++) rows[w][i] = value(R.k[i], R.nullable[i], false); write(R, L, mem, w, {rows[w]}); read(R, L, mem, 0, rows, all(R)); sx_cover("read"); free(mem); }
// any subset of the attributes, in any order
SX_MAIN(projections) { Rel R; R.add(KB, true); R.add(K4, true); R.add(KC, false); R.add(KB, false); DataLayout L = layout(sx_choose(6, "layout"), R.ts); std::vector<std::vector<Val>> rows; for (unsigned r = 0; r < 3; r++) { std::vector<Val> v; for (unsigned i = 0; i < 4; i++) v.push_back(value(R.k[i], R.nullable[i] && r == 1, false)); rows.push_back(v); }
    char *mem = space(L, 3); write(R, L, mem, 0, rows); std::vector<unsigned> order, left = all(R); unsigned m = 1 + sx_choose(4, "attributes"); for (unsigned j = 0; j < m; j++) { unsigned c = sx_choose(left.size(), "attribute"); order.push_back(left[c]); left.erase(left.begin() + c); } read(R, L, mem, sx_choose(2, "from"), rows, order); sx_cover("read"); free(mem); }
// more attributes than NULL bits in a byte
SX_MAIN(wide) { Rel R; for (unsigned i = 0; i < 10; i++) R.add(i == 3 ? K8 : i == 5 ? KC : KB, i != 4); DataLayout L = layout(sx_choose(6, "layout"), R.ts); std::vector<std::vector<Val>> rows; unsigned n = 3, a = sx_choose(10, "null attribute"), b = sx_choose(10, "null attribute"); for (unsigned r = 0; r < n; r++) { std::vector<Val> v; for (unsigned i = 0; i < 10; i++) { v.push_back(value(R.k[i], false, false, i == a && r == 0 ? -1 : r * 3 + i)); if (R.nullable[i] && ((r == 1 && (i == a || i == b)) || (r == 2 && i != a))) v.back().null = true; } rows.push_back(v); }
    char *mem = space(L, n); write(R, L, mem, 0, rows); read(R, L, mem, 0, rows, all(R)); sx_cover("read"); free(mem); }
