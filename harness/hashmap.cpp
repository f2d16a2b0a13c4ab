// C23: RefCountingHashMap against a list of the entries inserted; keys and values symbolic, hash values forked
#include "sx.h"
#include "util/container/RefCountingHashMap.hpp"
#include <string>
#include <vector>
using namespace m;
#ifndef HV
#define HV 4u
#endif
struct K { uint8_t k; bool operator==(const K &o) const { return k == o.k; } };
struct H { std::size_t operator()(const K &k) const { return sx_fork_value(k.k & (HV - 1)) | ~(uint64_t)7; } };
using Map = RefCountingHashMap<K, uint32_t, H>;
struct E { uint8_t k; uint32_t v; };
#define KB 4 // key bits: HV hash values, several keys each
static void check(Map &M, const std::vector<E> &L) {
    sx_check(M.size() == L.size(), "size is the number of entries"); sx_check(M.size() <= M.capacity() && (M.capacity() & (M.capacity() - 1)) == 0, "capacity");
    const Map &C = M; K q{(uint8_t)sx_sym(KB, "query")}; uint32_t v = sx_make<uint32_t>("qv");
    unsigned cnt = 0, cv = 0; for (auto &e : L) { cnt += e.k == q.k; cv += (e.k == q.k) & (e.v == v); }
    sx_check(M.count(q) == cnt, "count of a key"); unsigned a = 0, av = 0, bad = 0; M.for_all(q, [&](Map::value_type &x) { a++; av += x.second == v; bad += x.first.k != q.k; });
    sx_check(a == cnt && av == cv && bad == 0, "all entries of a key, with their values"); a = av = 0; C.for_all(q, [&](const Map::value_type &x) { a++; av += x.second == v; }); sx_check(a == cnt && av == cv, "all entries of a key in a constant map");
    auto it = M.find(q); sx_check((it == M.end()) == (cnt == 0), "find fails iff the key is absent"); if (it != M.end()) { sx_check(it->first.k == q.k, "find returns the key asked for"); bool in = false; for (auto &e : L) in |= (e.k == q.k) & (e.v == it->second); sx_check(in, "find returns an entry of the key"); }
    auto ci = C.find(q); sx_check((ci == C.end()) == (cnt == 0), "find in a constant map");
    a = av = 0; unsigned n = 0; for (auto &x : M) { n++; a += x.first.k == q.k; av += (x.first.k == q.k) & (x.second == v); } sx_check(n == L.size() && a == cnt && av == cv, "iteration visits exactly the entries"); n = 0; for (auto &x : C) { (void) x; n++; } sx_check(n == L.size(), "iteration of a constant map");
}
static void insert(Map &M, std::vector<E> &L, bool dup) {
    K k{(uint8_t)sx_sym(KB, "k")}; uint32_t v = sx_make<uint32_t>("v");
    if (dup) { auto it = M.insert_with_duplicates(k, v); sx_check(it->first.k == k.k && it->second == v, "insertion returns the new entry"); L.push_back({k.k, v}); }
    else { bool has = false; for (auto &e : L) has |= e.k == k.k; auto [it, ok] = M.insert_without_duplicates(k, v); sx_check(ok == !has, "insertion happens iff the key is new"); sx_check(it->first.k == k.k, "insertion returns an entry of the key"); if (ok) { sx_check(it->second == v, "new value"); L.push_back({k.k, v}); } else { sx_cover("duplicate"); bool in = false; for (auto &e : L) in |= (e.k == k.k) & (e.v == it->second); sx_check(in, "an existing entry keeps its value"); } }
}
#define N (SX_THOROUGH ? 5 : 4)
SX_MAIN(with_duplicates) { Map M(1 + sx_choose(2, "cap")); std::vector<E> L; unsigned n = sx_choose(N + 1, "n"); for (unsigned i = 0; i < n; i++) insert(M, L, true); check(M, L); }
SX_MAIN(without_duplicates) { Map M(2); std::vector<E> L; unsigned n = sx_choose(N + 1, "n"); for (unsigned i = 0; i < n; i++) insert(M, L, false); check(M, L); }
SX_MAIN(mixed) { Map M(8); std::vector<E> L; unsigned n = 1 + sx_choose(N, "n"); for (unsigned i = 0; i < n; i++) insert(M, L, sx_choose(2, "dup")); check(M, L); }
SX_MAIN(resizing) {
    Map M(1 + sx_choose(4, "cap")); std::vector<E> L; unsigned n = sx_choose(N - 1, "n");
    for (unsigned i = 0; i < n; i++) { insert(M, L, sx_choose(2, "dup")); }
    switch (sx_choose(5, "op")) {
        case 0: M.rehash(); break; case 1: M.shrink_to_fit(); break; case 2: { unsigned s = sx_choose(12, "size"); M.resize(s); sx_check(M.capacity() >= s, "resize provides the capacity asked for"); break; }
        case 3: M.max_load_factor(.5f); sx_check(M.max_load_factor() == .5f, "load factor"); break; case 4: M.max_load_factor(.99f); M.resize(M.capacity() * 2); break; }
    sx_check(M.size() == L.size(), "resizing keeps the size"); insert(M, L, true); sx_check(float(M.size()) <= float(M.capacity()) * .995f, "a free slot remains"); check(M, L);
}
SX_MAIN(bucket) { // bucket iterators: every entry of a key is met once, the probe distance identifies the bucket
    Map M(8); std::vector<E> L; unsigned n = sx_choose(N, "n"); for (unsigned i = 0; i < n; i++) insert(M, L, true);
    K q{(uint8_t)sx_sym(KB, "query")}; unsigned a = 0, c = 0; for (auto &e : L) c += e.k == q.k; std::size_t ix = M.masked(H{}(q));
    for (auto it = M.bucket(q); it.has_next(); ++it) { a += it->first.k == q.k; sx_check(it.bucket_index() == ix, "bucket index is kept while stepping"); } sx_check(a == c, "bucket iteration meets every entry of the key");
    a = 0; for (auto it = M.bucket(q); it.has_next(); it++) a += (*it).first.k == q.k; sx_check(a == c, "postfix increment");
}
SX_MAIN(growth) { // growing past several capacities with distinct and equal hash values
    Map M(1); std::vector<E> L; unsigned n = SX_THOROUGH ? 14 : 9; uint8_t base = sx_sym(2, "h"); bool same = sx_bool("same"); same = sx_fork_value(same);
    for (unsigned i = 0; i < n; i++) { K k{uint8_t(same ? base + 4 * i : i)}; uint32_t v = sx_make<uint32_t>("v"); M.insert_without_duplicates(k, v); L.push_back({k.k, v}); sx_check(M.size() == i + 1, "size"); }
    for (auto &e : L) { auto it = M.find(K{e.k}); sx_check(it != M.end() && it->second == e.v, "found after growth"); }
}
SX_MAIN(lifetime) { // owning values: nothing leaks, nothing is freed twice
    uint64_t live = sx_heap_live(); unsigned n = sx_choose(5, "n");
    { RefCountingHashMap<std::string, std::string> M(1 + sx_choose(2, "cap")); for (unsigned i = 0; i < n; i++) { std::string k(20 + i / 2, 'a'); if (sx_choose(2, "dup")) M.insert_with_duplicates(k, std::string(30, 'v')); else M.insert_without_duplicates(k, std::string(30, 'v')); } if (sx_choose(2, "resize")) M.resize(16); unsigned c = 0; for (auto &x : M) { sx_check(x.second == std::string(30, 'v'), "value"); c++; } sx_check(c == M.size(), "iteration"); }
    sx_check(sx_heap_live() == live, "all memory is released");
}
