// Array and recursive-model indexes against a linear scan of their keys
#include "sqlenv.hpp"
#include <mutable/storage/Index.hpp>
#include <mutable/storage/DataLayoutFactory.hpp>
using namespace m::storage;
#include <mutable/util/exception.hpp>
#include <cmath>
#include <limits>
using namespace m::idx;
extern "C" __attribute__((used, noinline)) uint64_t sx_stub_hash(const char *s) { uint64_t n = 0; while (s[n]) n++; return n; }   // stand in for the string hash
extern "C" __attribute__((used, noinline)) uint64_t sx_stub_hashn(const char *s, size_t l) { uint64_t n = 0; while (n < l && s[n]) n++; return n; }

template<typename K> static bool lt(K a, K b) { if constexpr (std::is_same_v<K, const char*>) return std::strcmp(a, b) < 0; else return a < b; }

// the index holds each added pair once, in order of the keys
template<typename I, typename K> static void content(const I &x, const K *keys, unsigned n)
{
    sx_check(x.num_entries() == n, "number of entries");
    sx_check(size_t(x.end() - x.begin()) == n, "distance of begin and end");
    unsigned seen = 0;
    for (auto it = x.begin(); it != x.end(); ++it) {
        if (it != x.begin()) sx_check(not lt<K>(it->first, (it - 1)->first), "entries are sorted");
        sx_check(it->second < n, "value was added"); if (it->second >= n) return;
        sx_check(not (seen >> it->second & 1), "no pair occurs twice"); seen |= 1u << it->second;
        sx_check(not lt<K>(it->first, keys[it->second]) and not lt<K>(keys[it->second], it->first), "pairs keep key and value");
    }
}
template<typename I, typename K> static void lookup(const I &x, const K *keys, unsigned n, K k)
{
    unsigned lo = 0, up = 0;
    for (unsigned i = 0; i != n; ++i) { lo += lt<K>(keys[i], k); up += not lt<K>(k, keys[i]); }
    sx_check(x.lower_bound(k) - x.begin() == (ptrdiff_t)lo, "lower bound is the first entry not less than the key");
    sx_check(x.upper_bound(k) - x.begin() == (ptrdiff_t)up, "upper bound is the first entry greater than the key");
}
template<typename I, typename K> static void rejected(const I &x, K k)
{
    unsigned e = 0;
    try { (void) x.lower_bound(k); } catch (m::exception&) { ++e; }
    try { (void) x.upper_bound(k); } catch (m::exception&) { ++e; }
    sx_check(e == 2, "an index that is not finalized refuses lookups");
    sx_check(not x.finalized(), "not finalized");
}
template<typename K> static void array(unsigned max, K (*mk)(const char*))
{
    ArrayIndex<K> x; K keys[7];
    sx_check(x.method() == IndexMethod::Array, "method");
    unsigned n = sx_choose(max + 1, "n");
    K k = mk("lookup");
    rejected(x, k);
    for (unsigned i = 0; i != n; ++i) { keys[i] = mk("key"); x.add(keys[i], i); if (i == 0) rejected(x, k); }
    x.finalize();
    sx_check(x.finalized(), "finalized");
    sx_check(x.size_in_bytes() == n * sizeof(typename ArrayIndex<K>::entry_type), "size in bytes");
    content(x, keys, n); lookup(x, keys, n, k);
    sx_cover("looked up");
}
SX_MAIN(array_bool) { array<bool>(3, [](const char *n) { return sx_bool(n); }); }
SX_MAIN(array_i8) { array<int8_t>(5 + SX_THOROUGH, sx_make<int8_t>); }
SX_MAIN(array_i16) { array<int16_t>(4, sx_make<int16_t>); }
SX_MAIN(array_i32) { array<int32_t>(4 + SX_THOROUGH, sx_make<int32_t>); }
SX_MAIN(array_i64) { array<int64_t>(4, sx_make<int64_t>); }
static float mkf(const char *n) { uint32_t b = sx_make<uint32_t>(n); float f; std::memcpy(&f, &b, 4); sx_assume(f == f); return f; }
static double mkd(const char *n) { uint64_t b = sx_make<uint64_t>(n); double f; std::memcpy(&f, &b, 8); sx_assume(f == f); return f; }
SX_MAIN(array_float) { array<float>(3 + SX_THOROUGH, mkf); }
SX_MAIN(array_double) { array<double>(3 + SX_THOROUGH, mkd); }
static const char *mks(const char *n) { char *s = (char*)std::malloc(3); s[0] = sx_make<char>(n); s[1] = s[0] ? sx_make<char>(n) : 0; s[2] = 0; return s; }
SX_MAIN(array_string) { array<const char*>(2 + SX_THOROUGH, mks); }

// adding after finalize() takes the index out of service until it is finalized again
SX_MAIN(refill)
{
    ArrayIndex<int8_t> x; int8_t keys[4]; int8_t k = sx_make<int8_t>("lookup");
    unsigned n = 0, rounds = 2;
    for (unsigned r = 0; r != rounds; ++r) {
        unsigned a = sx_choose(3, "added");
        for (unsigned i = 0; i != a; ++i) { keys[n] = sx_make<int8_t>("key"); x.add(keys[n], n); ++n; }
        if (a or r == 0) rejected(x, k); else lookup(x, keys, n, k);
        x.finalize();
        content(x, keys, n); lookup(x, keys, n, k);
    }
    sx_cover("refilled");
}
// an index whose memory is full refuses further entries and keeps the others
template<typename K> struct Small : ArrayIndex<K> { char *p; Small(size_t n) { p = (char*)std::malloc(n); this->memory_ = m::memory::Memory(p, n); } ~Small() { std::free(p); } };
SX_MAIN(capacity)
{
    using E = ArrayIndex<int32_t>::entry_type;
    unsigned bytes = 1 + sx_choose(3 * sizeof(E) + 2, "bytes"); Small<int32_t> x(bytes); int32_t keys[4];
    unsigned n = 0; bool full = false;
    for (unsigned i = 0; i != 4; ++i) {
        int32_t k = sx_make<int32_t>("key");
        try { x.add(k, n); keys[n++] = k; sx_check(not full, "full"); } catch (m::runtime_error&) { full = true; }
    }
    sx_check(n == bytes / sizeof(E), "as many entries as there is memory for");
    x.finalize(); content(x, keys, n); lookup(x, keys, n, sx_make<int32_t>("lookup"));
    sx_cover("full");
}

// recursive-model index: whatever position the models predict, the search must find the right one
template<typename K> struct Model : RecursiveModelIndex<K>
{
    void set(double a, double b) {
        std::sort(this->begin(), this->end(), this->cmp);
        this->models_.clear(); this->models_.emplace_back(0., 0.); this->models_.emplace_back(a, b); this->finalized_ = true;
    }
};
template<typename K> static void predicted(unsigned max)
{
    Model<K> x; K keys[8]; unsigned n = 1 + sx_choose(max, "n");
    for (unsigned i = 0; i != n; ++i) { keys[i] = sx_make<K>("key"); if (i) sx_assume(keys[i-1] <= keys[i]); x.add(keys[i], i); }
    x.set(0., (double)sx_choose(n + 3, "position") - 1.);
    lookup(x, keys, n, sx_make<K>("lookup"));
    sx_cover("predicted");
}
SX_MAIN(rmi_any_prediction_i8) { predicted<int8_t>(5 + 2 * SX_THOROUGH); }
SX_MAIN(rmi_any_prediction_i32) { predicted<int32_t>(5 + 2 * SX_THOROUGH); }
SX_MAIN(rmi_any_prediction_i64) { predicted<int64_t>(5 + SX_THOROUGH); }

// trained models
static void ratio(Env &E) {
    const char *r[] = { "0.01", "0.3", "1", "2.5" };
    const char *argv[] = { "x", "--rmi-model-entry-ratio", r[sx_choose(4, "ratio")], nullptr };
    E.C.arg_parser()(3, argv);
}
template<typename K> static void trained(const K *set, unsigned n, unsigned lookups, K (*key)(const K*, unsigned))
{
    RecursiveModelIndex<K> x; K keys[16];
    sx_check(x.method() == IndexMethod::Rmi, "method");
    unsigned m = 1 + sx_choose(n, "n"), rev = sx_choose(2, "order");
    for (unsigned i = 0; i != m; ++i) { keys[i] = set[rev ? m - 1 - i : i]; x.add(keys[i], i); }
    rejected(x, keys[0]);
    x.finalize();
    if (sx_choose(2, "again")) x.finalize();
    content(x, keys, m);
    for (unsigned i = 0; i != lookups; ++i) lookup(x, keys, m, key(set, i));
    sx_cover("trained");
}
static const int8_t S8[][12] = { { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 120 }, { -128, -127, -126, 0, 0, 0, 1, 1, 125, 126, 127, 127 }, { 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5 }, { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 127 }, { -128, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127 } };
SX_MAIN(rmi_trained_i8) { Env E; ratio(E); trained<int8_t>(S8[sx_choose(5, "set")], 12, 256, [](const int8_t*, unsigned i) { return (int8_t)i; }); }
template<typename K> static K around(const K *s, unsigned i) {
    if (i >= 36) { K e[] = { std::numeric_limits<K>::lowest(), std::numeric_limits<K>::max(), K(0), std::numeric_limits<K>::min() }; return e[i - 36]; }
    K k = s[i / 3];
    if constexpr (std::is_floating_point_v<K>) {
        if (i % 3 == 0 or std::isinf(k)) return k;
        std::conditional_t<sizeof(K) == 4, uint32_t, uint64_t> b; std::memcpy(&b, &k, sizeof k); // a neighbouring number
        if (k == 0) { K d = std::numeric_limits<K>::denorm_min(); return i % 3 == 1 ? -d : d; }
        b += (i % 3 == 1) == (k > 0) ? -1 : 1; std::memcpy(&k, &b, sizeof k); return k;
    }
    else return i % 3 == 0 ? k : i % 3 == 1 ? (k == std::numeric_limits<K>::min() ? k : k - 1) : (k == std::numeric_limits<K>::max() ? k : k + 1);
}
template<typename K> static const K *ints() {
    constexpr K lo = std::numeric_limits<K>::min(), hi = std::numeric_limits<K>::max();
    static const K S[][12] = { { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1000, 10000 }, { lo, lo + 1, lo + 2, -1, 0, 0, 0, 1, hi - 2, hi - 1, hi, hi }, { lo, hi, hi, hi, hi, hi, hi, hi, hi, hi, hi, hi }, { 0, 1, 4, 9, 16, 25, 36, 49, 64, 81, 100, 121 } };
    return S[sx_choose(4, "set")];
}
SX_MAIN(rmi_trained_i16) { Env E; ratio(E); trained<int16_t>(ints<int16_t>(), 12, 40, around<int16_t>); }
SX_MAIN(rmi_trained_i32) { Env E; ratio(E); trained<int32_t>(ints<int32_t>(), 12, 40, around<int32_t>); }
SX_MAIN(rmi_trained_i64) { Env E; ratio(E); trained<int64_t>(ints<int64_t>(), 12, 40, around<int64_t>); }
template<typename K> static const K *reals() {
    using L = std::numeric_limits<K>; constexpr K d = L::denorm_min(), hi = L::max(), inf = L::infinity();
    static const K S[][12] = { { 0, K(.5), 1, 2, 3, 4, 5, 6, 7, 8, 1000, 10000 }, { -hi, -hi, -1, -d, K(-0.), 0, d, d + d, 1, hi, hi, hi }, { K(-0.), 0, d, d, d, d, d + d, d + d, d + d, d + d, 3 * d, 4 * d }, { -inf, -hi, -1, 0, 1, 2, 3, 4, 5, hi, inf, inf }, { hi, hi, hi, hi, hi, hi, hi, hi, inf, inf, inf, inf } };
    return S[sx_choose(5, "set")];
}
SX_MAIN(rmi_trained_float) { Env E; ratio(E); trained<float>(reals<float>(), 12, 40, around<float>); }
SX_MAIN(rmi_trained_double) { Env E; ratio(E); trained<double>(reals<double>(), 12, 40, around<double>); }
SX_MAIN(rmi_empty)
{
    RecursiveModelIndex<int32_t> x; x.finalize(); int32_t keys[1] = {};
    content(x, keys, 0); lookup(x, keys, 0, sx_make<int32_t>("lookup")); sx_cover("empty");
}
// few symbolic keys, trained by the real code
SX_MAIN(rmi_small) {
    RecursiveModelIndex<int8_t> x; int8_t keys[3]; unsigned n = 1 + sx_choose(2, "n");
    for (unsigned i = 0; i != n; ++i) { keys[i] = (int8_t)sx_fork_value(sx_range(0, 15, "key", 8)); x.add(keys[i], i); }
    x.finalize(); content(x, keys, n);
    for (int k = -2; k != 18; ++k) lookup(x, keys, n, (int8_t)k);
    sx_cover("small");
}

// bulk loading
template<typename I, typename K> static void load(Env &E, Table &T, const K *keys, const bool *null, unsigned rows, K k)
{
    Schema S; S.add(Schema::Identifier(E.C.pool("a")), T.schema().at(1).type);
    I y; y.bulkload(T, S); const I &x = y;
    unsigned n = 0, lo = 0, up = 0;
    for (unsigned i = 0; i != rows; ++i) if (not null[i]) { ++n; lo += lt<K>(keys[i], k); up += not lt<K>(k, keys[i]); }
    sx_check(x.num_entries() == n, "one entry per row whose key is not NULL");
    unsigned seen = 0;
    for (auto it = x.begin(); it != x.end(); ++it) {
        sx_check(it->second < rows and not null[it->second] and not (seen >> it->second & 1), "entries refer to rows with a key"); if (it->second >= rows) return;
        seen |= 1u << it->second;
        sx_check(not lt<K>(it->first, keys[it->second]) and not lt<K>(keys[it->second], it->first), "the key is the one of the row");
    }
    sx_check(x.lower_bound(k) - x.begin() == (ptrdiff_t)lo and x.upper_bound(k) - x.begin() == (ptrdiff_t)up, "range of the key");
    sx_cover("loaded");
}
static void put(Tuple &t, bool k) { t.set(1, Value(k)); }
static void put(Tuple &t, int64_t k) { t.set(1, Value(k)); }
static void put(Tuple &t, float k) { t.set(1, Value(k)); }
static void put(Tuple &t, double k) { t.set(1, Value(k)); }
static void put(Tuple &t, const char *k) { t.not_null(1); std::strcpy((char*)t[1].as_p(), k); }
template<typename I, typename K> static void bulk(const PrimitiveType *ty, K (*mk)(const char*))
{
    Env E; auto &T = E.table("T", { { "b", I4() }, { "a", ty } });
    T.layout(RowLayoutFactory()); T.store(E.C.create_store(T));
    unsigned rows = sx_choose(3, "rows"); K keys[2]; bool null[2];
    StoreWriter W(T.store()); Tuple t(W.schema());
    for (unsigned i = 0; i != rows; ++i) {
        null[i] = sx_choose(2, "null"); keys[i] = mk("key");
        t.set(0, Value(int64_t(i)));
        if (null[i]) t.null(1);
        else if constexpr (std::is_integral_v<K> and not std::is_same_v<K, bool>) put(t, int64_t(keys[i]));
        else put(t, keys[i]);
        W.append(t);
    }
    load<I, K>(E, T, keys, null, rows, mk("lookup"));
}
SX_MAIN(bulk_bool) { bulk<ArrayIndex<bool>, bool>(BO(), [](const char *n) { return sx_bool(n); }); }
SX_MAIN(bulk_i8) { bulk<ArrayIndex<int8_t>, int8_t>(I1(), sx_make<int8_t>); }
SX_MAIN(bulk_i16) { bulk<ArrayIndex<int16_t>, int16_t>(I2(), sx_make<int16_t>); }
SX_MAIN(bulk_i32) { bulk<ArrayIndex<int32_t>, int32_t>(I4(), sx_make<int32_t>); }
SX_MAIN(bulk_i64) { bulk<ArrayIndex<int64_t>, int64_t>(I8(), sx_make<int64_t>); }
SX_MAIN(bulk_decimal) { bulk<ArrayIndex<int32_t>, int32_t>(DE(8, 2), sx_make<int32_t>); }
SX_MAIN(bulk_date) { bulk<ArrayIndex<int32_t>, int32_t>(DA(), sx_make<int32_t>); }
SX_MAIN(bulk_datetime) { bulk<ArrayIndex<int64_t>, int64_t>(DT(), sx_make<int64_t>); }
SX_MAIN(bulk_float) { bulk<ArrayIndex<float>, float>(FL(), mkf); }
SX_MAIN(bulk_double) { bulk<ArrayIndex<double>, double>(DB(), mkd); }
SX_MAIN(bulk_char) { bulk<ArrayIndex<const char*>, const char*>(CH(2), [](const char *n) { static const char *W[] = { "", "a", "ab", "b" }; return W[sx_choose(4, n)]; }); }
SX_MAIN(bulk_varchar) { bulk<ArrayIndex<const char*>, const char*>(VC(2), [](const char *n) { static const char *W[] = { "", "a", "ab", "b" }; return W[sx_choose(4, n)]; }); }
static int8_t small(const char *n) { return (int8_t)(sx_choose(3, n) * 100 - 100); }
SX_MAIN(bulk_rmi) { bulk<RecursiveModelIndex<int8_t>, int8_t>(I1(), small); }

// keys of another type, and several attributes, are refused
template<typename I> static bool refused(Table &T, const Schema &S) { I x; try { x.bulkload(T, S); } catch (m::invalid_argument&) { sx_check(x.num_entries() == 0 and not x.finalized(), "nothing is loaded"); return true; } return false; }
SX_MAIN(bulk_types)
{
    Env E; unsigned c = sx_choose(13, "type");
    const PrimitiveType *ty[] = { BO(), I1(), I2(), I4(), I8(), FL(), DB(), CH(3), VC(3), DA(), DT(), DE(8, 2), DE(17, 2) };
    static const unsigned kind[] = { 0, 1, 2, 3, 4, 5, 6, 7, 7, 3, 4, 3, 4 };
    auto &T = E.table("T", { { "a", ty[c] } });
    T.layout(RowLayoutFactory()); T.store(E.C.create_store(T));
    bool r = true;
    unsigned k = sx_choose(8, "key type");
    switch (k) {
        case 0: r = refused<ArrayIndex<bool>>(T, T.schema()); break;
        case 1: r = refused<ArrayIndex<int8_t>>(T, T.schema()); break;
        case 2: r = refused<ArrayIndex<int16_t>>(T, T.schema()); break;
        case 3: r = refused<ArrayIndex<int32_t>>(T, T.schema()); break;
        case 4: r = refused<ArrayIndex<int64_t>>(T, T.schema()); break;
        case 5: r = refused<ArrayIndex<float>>(T, T.schema()); break;
        case 6: r = refused<ArrayIndex<double>>(T, T.schema()); break;
        default: r = refused<ArrayIndex<const char*>>(T, T.schema()); break;
    }
    sx_check(r == (kind[c] != k), "exactly the key type of the attribute is accepted");
    sx_cover(r ? "refused" : "accepted");
}
SX_MAIN(bulk_schema)
{
    Env E; auto &T = E.table("T", { { "a", I4() }, { "b", I4() } });
    T.layout(RowLayoutFactory()); T.store(E.C.create_store(T));
    ArrayIndex<int32_t> x; bool r = false; Schema none;
    try { if (sx_choose(2, "none")) x.bulkload(T, none); else x.bulkload(T, T.schema()); } catch (m::invalid_argument&) { r = true; }
    sx_check(r, "keys of several attributes are refused"); sx_cover("refused");
}
