// C04: data layouts
#include "sx.h"
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/Type.hpp>
#include <mutable/storage/DataLayout.hpp>
#include <mutable/storage/DataLayoutFactory.hpp>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <vector>
using namespace m; using namespace m::storage;
// a character type of any (symbolic) length: interned types have concrete ones, so the length is patched into a copy
static const Type *text(bool varying, const char *name, uint64_t lo, uint64_t hi) { unsigned nb = 64 - __builtin_clzll(hi);
    const CharacterSequence *t = varying ? Type::Get_Varchar(Type::TY_Vector, 1) : Type::Get_Char(Type::TY_Vector, 1);
    auto *c = (CharacterSequence*)malloc(sizeof(CharacterSequence)); memcpy((void*)c, (const void*)t, sizeof *c); c->length = sx_range(lo, hi, name, nb); return c; }
static const Type *type(unsigned k, uint64_t maxlen) {
    switch (k) { case 0: return Type::Get_Boolean(Type::TY_Vector); case 1: return Type::Get_Integer(Type::TY_Vector, 1); case 2: return Type::Get_Integer(Type::TY_Vector, 2); case 3: return Type::Get_Integer(Type::TY_Vector, 4); case 4: return Type::Get_Integer(Type::TY_Vector, 8); case 5: return text(sx_choose(2, "varying"), "length", 1, maxlen);
        case 6: return Type::Get_Float(Type::TY_Vector); case 7: return Type::Get_Double(Type::TY_Vector); case 8: return Type::Get_Date(Type::TY_Vector); case 9: return Type::Get_Datetime(Type::TY_Vector); default: return Type::Get_Decimal(Type::TY_Vector, 1 + sx_choose(19, "digits"), 0); } }
static std::vector<const Type*> types(unsigned maxn, unsigned nkinds, uint64_t maxlen) { unsigned n = 1 + sx_choose(maxn, "attributes"); std::vector<const Type*> v; for (unsigned i = 0; i < n; i++) v.push_back(type(sx_choose(nkinds, "type"), maxlen)); return v; }
// what the layout says about each attribute: where the value of row r lies, relative to its block
static void judge(const DataLayout &L, const std::vector<const Type*> &ts, bool pax, unsigned max_rows, unsigned rbits = 8) {
    sx_check((bool)L, "the layout has a child"); auto &root = static_cast<const DataLayout::INode&>(L); auto *blk = cast<const DataLayout::INode>(root[0].ptr.get()); sx_check(blk, "the layout's child is a block of tuples");
    uint64_t stride = L.stride_in_bits(), rows = blk->num_tuples(); sx_check(rows >= 1, "a block holds at least one row"); if (!pax) sx_check(rows == 1, "a row holds one tuple"); if (max_rows) sx_check(rows <= max_rows, "no more rows than the block size asked for"); sx_check(stride % 8 == 0, "blocks begin at byte boundaries");
    sx_check(blk->num_children() == ts.size() + 1, "one place for each attribute and one for the NULL bitmap");
    uint64_t off[9], str[9], size[9], seen = 0; 
    for (unsigned i = 0; i <= ts.size(); i++) { auto &c = (*blk)[i]; auto *leaf = cast<const DataLayout::Leaf>(c.ptr.get()); sx_check(leaf && leaf->index() <= ts.size(), "a leaf for each attribute"); unsigned k = leaf->index(); sx_check(!(seen >> k & 1), "each attribute once"); seen |= 1u << k;
        off[k] = c.offset_in_bits; str[k] = c.stride_in_bits; size[k] = leaf->type()->size(); if (k < ts.size()) { sx_check(leaf->type() == ts[k], "the attribute's own type"); } else sx_check(leaf->type()->is_bitmap() && size[k] == ts.size(), "one NULL bit for each attribute"); }
    // no two places overlap, for any two rows: it suffices that the columns are disjoint and a column's stride has room for its values; otherwise the rows themselves are compared
    uint64_t end[9]; bool simple = true; for (unsigned k = 0; k <= ts.size(); k++) { end[k] = off[k] + (rows - 1) * str[k] + size[k]; sx_check(end[k] <= stride, "inside the space of the block"); if (rows > 1 && str[k] < size[k]) simple = false; }
    for (unsigned k = 0; k <= ts.size(); k++) for (unsigned j = k + 1; j <= ts.size(); j++) simple = simple & ((off[j] >= end[k]) | (end[j] <= off[k]));
    for (unsigned k = 0; k < ts.size(); k++) { uint64_t al = ts[k]->alignment(); simple = simple & (off[k] % al == 0) & (str[k] % al == 0); if (ts[k]->size() % 8 == 0) sx_check(off[k] % 8 == 0 && str[k] % 8 == 0 && stride % al == 0, "aligned in every block"); }
    if (!simple) { sx_cover("rows compared"); uint64_t r = 0, q = 0; if (pax) { r = sx_range(0, (1u << rbits) - 1, "row", rbits); q = sx_range(0, (1u << rbits) - 1, "other row", rbits); sx_assume(r < rows && q < rows); }
        for (unsigned k = 0; k <= ts.size(); k++) { uint64_t a = off[k] + r * str[k], e = a + size[k]; if (k < ts.size()) sx_check(a % ts[k]->alignment() == 0, "aligned as the type demands");
            sx_check(q == r || off[k] + q * str[k] >= e || off[k] + q * str[k] + size[k] <= a, "no overlap with the same attribute of another row");
            for (unsigned j = k + 1; j <= ts.size(); j++) { uint64_t b = off[j] + q * str[j]; sx_check(b >= e || b + size[j] <= a, "no overlap with another attribute or the NULL bits"); } } }
    sx_observe("stride", stride); sx_observe("rows", rows); sx_cover(rows > 1 ? "many rows" : "single row");
    // a further level of access: the sibling leaves are handed out with the same geometry
    unsigned n = 0; L.for_sibling_leaves([&](const std::vector<DataLayout::leaf_info_t> &leaves, const DataLayout::level_info_stack_t &levels, uint64_t ioff) { n++; sx_check(ioff == 0 && leaves.size() == ts.size() + 1 && levels.size() == 1 && levels[0].stride_in_bits == stride && levels[0].num_tuples == rows, "the block's level"); for (auto &l : leaves) sx_check(l.offset_in_bits == off[l.leaf.index()] && l.stride_in_bits == str[l.leaf.index()], "the leaf's place"); }); sx_check(n == 1, "one set of sibling leaves");
}
SX_MAIN(row) { auto ts = types(SX_THOROUGH ? 4 : 3, SX_THOROUGH ? 8 : 6, 4000); RowLayoutFactory F; std::vector<const Type*> v = ts; judge(F.make(v, sx_choose(2, "finite") ? 7 : 0), ts, false, 0); }
SX_MAIN(row_types) { auto ts = types(2, 11, 4000); RowLayoutFactory F; judge(F.make(ts), ts, false, 0); }
SX_MAIN(pax_tuples) { auto ts = types(2, 6, 127); static const unsigned N[] = {1, 2, 7, 16, 17, 33, 40, 100}; unsigned n = N[sx_choose(SX_THOROUGH ? 8 : 5, "tuples")]; PAXLayoutFactory F(PAXLayoutFactory::NTuples, n); judge(F.make(ts), ts, true, n, 32 - __builtin_clz(n)); }
SX_MAIN(pax_types) { auto ts = types(2, 11, 15); static const unsigned N[] = {3, 16, 128}; unsigned n = N[sx_choose(SX_THOROUGH ? 3 : 2, "tuples")]; PAXLayoutFactory F(PAXLayoutFactory::NTuples, n); judge(F.make(ts), ts, true, n, 32 - __builtin_clz(n)); }
SX_MAIN(pax_bytes) { auto ts = types(2, 6, SX_THOROUGH ? 127 : 15); static const unsigned N[] = {64, 4096}; unsigned n = N[sx_choose(2, "bytes")]; PAXLayoutFactory F(PAXLayoutFactory::NBytes, n); judge(F.make(ts), ts, true, 0); }
SX_MAIN(pax_wide) { std::vector<const Type*> ts; ts.push_back(type(4, 1)); for (unsigned i = 0; i < 7; i++) ts.push_back(type(sx_choose(2, "type"), 1)); PAXLayoutFactory F(PAXLayoutFactory::NTuples, 16); judge(F.make(ts), ts, true, 16); }
