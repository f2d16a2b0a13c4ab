// C11: small bit sets against the mathematical set of their elements; all 64-bit values unless noted
#include "sx.h"
#include <mutable/util/ADT.hpp>
#include <sstream>
#include <string>
using namespace m;
static bool in(uint64_t s, uint64_t i) { return (s >> i) & 1; }
static uint64_t U(SmallBitset s) { return uint64_t(s); }

SX_MAIN(algebra) {
    uint64_t a = sx_make<uint64_t>("a"), b = sx_make<uint64_t>("b"); uint64_t i = sx_range(0, 63, "i");
    SmallBitset A(a), B(b);
    const SmallBitset CA(a);
    sx_check(U(A) == a, "conversion");
    sx_check(bool(CA[i]) == in(a, i) && bool(A[i]) == in(a, i) && bool(CA(i)) == in(a, i) && bool(A(i)) == in(a, i) && bool(CA.at(i)) == in(a, i) && bool(A.at(i)) == in(a, i), "membership");
    sx_check(in(U(A | B), i) == (in(a, i) || in(b, i)), "union");
    sx_check(in(U(A & B), i) == (in(a, i) && in(b, i)), "intersection");
    sx_check(in(U(A - B), i) == (in(a, i) && !in(b, i)), "difference");
    sx_check(U(unify(A, B)) == U(A | B) && U(intersect(A, B)) == U(A & B) && U(subtract(A, B)) == U(A - B), "named operations");
    sx_check(in(U(~A), i) == !in(a, i), "complement");
    SmallBitset C(a); C |= B; sx_check(U(C) == (a | b), "union assignment");
    SmallBitset D(a); D &= B; sx_check(U(D) == (a & b), "intersection assignment");
    SmallBitset E(a); E -= B; sx_check(U(E) == (a & ~b), "difference assignment");
    sx_check((A == B) == (a == b) && (A != B) == (a != b), "equality");
    sx_check(A.empty() == (a == 0) && bool(A) == (a != 0), "emptiness");
    sx_check(SmallBitset().empty(), "default is empty");
    sx_check(A.is_subset(B) == ((a & ~b) == 0), "subset");
    sx_observe("union", U(A | B));
}
SX_MAIN(update) {
    uint64_t a = sx_make<uint64_t>("a"), i = sx_range(0, 63, "i"), j = sx_range(0, 63, "j"); bool v = sx_bool("v");
    SmallBitset A(a); A[i] = v;
    sx_check(bool(A[i]) == v, "assigned element"); sx_check(i == j || bool(A[j]) == in(a, j), "other elements unchanged");
    SmallBitset B(a); B(i) = v; sx_check(B == A, "call syntax"); SmallBitset C(a); C.at(i) = v; sx_check(C == A, "at");
    SmallBitset D(a); D[i] = D[j]; sx_check(bool(D[i]) == in(a, j) && (i == j || bool(D[j]) == in(a, j)), "copying a bit");
    uint64_t k = sx_make<uint64_t>("k"); bool thrown = false;
    try { bool x = SmallBitset(a).at(k); sx_check(k < 64 && x == in(a, k), "at in range"); } catch (const m::out_of_range &) { thrown = true; sx_cover("thrown"); }
    sx_check(thrown == (k >= 64), "at rejects exactly positions out of range");
    thrown = false; const SmallBitset CA(a);
    try { (void) bool(CA.at(k)); } catch (const m::out_of_range &) { thrown = true; }
    sx_check(thrown == (k >= 64), "const at rejects exactly positions out of range");
}
SX_MAIN(count) {
    uint64_t a = sx_make<uint64_t>("a"), i = sx_range(0, 63, "i");
    SmallBitset A(a); unsigned n = 0; for (int b = 0; b < 64; b++) n += in(a, b);
    sx_check(A.size() == n, "size"); sx_check(A.is_singleton() == (a != 0 && (a & (a - 1)) == 0), "singleton test"); sx_check(A.capacity() == 64, "capacity");
    if (a) {
        uint64_t h = U(A.hi()); sx_check(h && (h & (h - 1)) == 0 && (h & a) == h, "highest is one of the elements"); sx_check(!in(a, i) || (1ull << i) <= h, "nothing above the highest");
        uint64_t m = U(A.mask_to_lo()); bool below = true; for (uint64_t b = 0; b < 64; b++) if (b < i && in(a, b)) below = false;
        sx_check(in(m, i) == below, "mask up to the lowest element");
        uint64_t l = U(least_subset(A)); sx_check(l && (l & (l - 1)) == 0 && (l & a) == l && (!in(a, i) || (1ull << i) >= l), "least subset is the lowest element");
    } else sx_check(least_subset(A).empty(), "least subset of the empty set");
    uint64_t n2 = sx_range(0, 64, "n"), j = sx_range(0, 63, "j");
    sx_check(in(U(SmallBitset::All(n2)), j) == (j < n2), "All"); sx_check(in(U(SmallBitset::Singleton(i)), j) == (i == j), "Singleton");
    sx_check(in(U(SmallBitset::Singleton(i).singleton_to_lo_mask()), j) == (j < i), "mask below a singleton");
    if (~a) { SmallBitset B(a); sx_check(U(++B) == a + 1 && U(B) == a + 1, "next in power set"); SmallBitset C(a); sx_check(U(C++) == a && U(C) == a + 1, "postfix next"); }
    if (a) { SmallBitset B(a); sx_check(U(--B) == a - 1, "previous in power set"); SmallBitset C(a); sx_check(U(C--) == a && U(C) == a - 1, "postfix previous"); }
}
// one step of each iterator from every position of an iteration: with the start and end conditions this decides iterations of any length
SX_MAIN(iterate) {
    uint64_t a = sx_make<uint64_t>("a"), i = sx_range(0, 63, "i"); SmallBitset A(a);
    sx_check((A.begin() == A.end()) == (a == 0) && (A.rbegin() == A.rend()) == (a == 0) && (A.cbegin() != A.cend()) == (a != 0) && (A.crbegin() != A.crend()) == (a != 0), "an iteration is empty iff the set is");
    if (!a) { sx_cover("empty"); return; }
    auto it = A.begin(); uint64_t x = *it;
    sx_check(x < 64 && in(a, x), "element is in the set"); sx_check(!in(a, i) || i >= x, "first is the smallest"); sx_check(U(it.as_set()) == 1ull << x, "as_set");
    auto old = it++; ++old; sx_check(old == it, "postfix equals prefix"); sx_check(it == SmallBitset(a & ~(1ull << x)).begin(), "advancing drops exactly the smallest");
    auto r = A.rbegin(); uint64_t y = *r;
    sx_check(y < 64 && in(a, y), "reverse element is in the set"); sx_check(!in(a, i) || i <= y, "first in reverse is the largest"); sx_check(U(r.as_set()) == 1ull << y, "reverse as_set");
    auto ro = r++; ++ro; sx_check(ro == r, "reverse postfix equals prefix"); sx_check(r == SmallBitset(a & ~(1ull << y)).rbegin(), "advancing in reverse drops exactly the largest");
}
// subset enumeration: next_subset is the successor in the numeric order of subsets
SX_MAIN(subsets) {
    uint64_t set = sx_make<uint64_t>("set"), sub = sx_make<uint64_t>("sub"), t = sx_make<uint64_t>("t");
    sx_assume((sub & ~set) == 0); sx_assume((t & ~set) == 0);
    uint64_t r = U(next_subset(SmallBitset(sub), SmallBitset(set)));
    sx_check((r & ~set) == 0, "is a subset"); sx_check((r == 0) == (sub == set), "ends after the full set"); sx_check(sub == set || r > sub, "increases");
    sx_check(!(t > sub && t < r), "skips none");
    sx_check(!(t != 0 && t < U(least_subset(SmallBitset(set)))), "starts with the first");
}
#define GW (SX_THOROUGH ? 24 : 12)
SX_MAIN(gosper_step) {
    uint64_t n = sx_range(1, GW, "n"); n = sx_fork_value(n); uint64_t s = sx_make<uint32_t>("s"), t = sx_make<uint32_t>("t");
    sx_assume(s != 0 && s < (1ull << n)); sx_assume(t < (1ull << n));
    auto g = GospersHack::enumerate_from(SmallBitset(s), n); sx_check(bool(g) && U(*g) == s, "starts at the given set"); ++g; uint64_t r = U(*g);
    unsigned ps = 0, pt = 0, pr = 0; for (unsigned i = 0; i < GW; i++) { ps += in(s, i); pt += in(t, i); pr += in(r, i); }
    sx_check(r > s, "increases"); sx_check(bool(g) == (r < (1ull << n)), "ends at the limit"); sx_check(!bool(g) || pr == ps, "keeps the size"); sx_check(!(pt == ps && t > s && t < r), "skips none");
}
// every nonempty set is a run of `len` ones at `pos`, a zero above it, and any bits higher up: its successor is known in closed form
SX_MAIN(gosper_any) {
    unsigned pos = sx_choose(63, "position"), len = 1 + sx_choose(63, "length"); if (pos + len > 63) return;
    uint64_t high = pos + len + 1 < 63 ? sx_make<uint64_t>("high") : 0, run = ((1ull << len) - 1) << pos, s; unsigned n = 63;
    if (pos + len + 1 < 63) { sx_assume((high >> (62 - pos - len)) == 0); s = high << (pos + len + 1) | run; } else s = run;
    auto g = GospersHack::enumerate_from(SmallBitset(s), n); ++g;
    uint64_t next = (s & ~run) + (1ull << (pos + len)) + ((1ull << (len - 1)) - 1);
    sx_check(U(*g) == next, "the next set of the same size in ascending order"); sx_check(bool(g) == (next < (1ull << n)), "ends at the limit");
    if (pos == 0) { sx_cover("first"); auto f = GospersHack::enumerate_all(len, n); sx_check(U(*f) == run && bool(f), "the first set of a size"); }
}
#define SN (SX_THOROUGH ? 7 : 5)
SX_MAIN(enumerate) {
    unsigned n = sx_choose(SN + 1, "n"), k = sx_choose(SN + 1, "k"); if (k > n) return;
    uint64_t binom = 1; for (unsigned i = 0; i < k; i++) binom = binom * (n - i) / (i + 1);
    uint64_t prev = 0, c = 0;
    for (auto g = GospersHack::enumerate_all(k, n); g; ++g) { uint64_t x = U(*g); sx_check(c == 0 || x > prev, "gosper ascends"); sx_check(x < (1ull << n) && (unsigned)__builtin_popcountll(x) == k, "gosper set has k of n"); prev = x; if (++c > binom) break; }
    sx_check(c == binom, "gosper enumerates every k-subset once"); sx_observe("c", c);
    // a symbolic n-element set inside 64 positions, given by gaps
    uint64_t set = 0, pos = sx_choose(2, "start") ? 64 - 2 * n : 0; for (unsigned i = 0; i < n; i++) { uint64_t d = sx_fork_value(sx_sym(1, "gap")); pos += d; set |= 1ull << pos; pos++; }
    uint64_t c2 = 0; prev = 0;
    for (SubsetEnumerator e(SmallBitset(set), k); e; ++e) { uint64_t x = U(*e); sx_check((x & ~set) == 0, "is a subset"); sx_check(SmallBitset(x).size() == k, "has the size asked for"); sx_check(c2 == 0 || x > prev, "no subset twice"); prev = x; if (++c2 > binom) break; }
    sx_check(c2 == binom, "every subset of the size once"); sx_cover("done");
}
SX_MAIN(print) {
    uint64_t a = sx_make<uint64_t>("a"); unsigned i = sx_choose(64, "i");
    std::ostringstream os; os << SmallBitset(a); std::string s = os.str(); sx_check(s.size() == 64, "prints 64 places"); sx_check(s[63 - i] == (in(a, i) ? '1' : '0'), "prints each bit");
    unsigned n = sx_choose(9, "n"); std::ostringstream o2; SmallBitset(a).print_fixed_length(o2, n); s = o2.str(); sx_check(s.size() == n, "prints n places"); for (unsigned j = 0; j < n; j++) sx_check(s[n - 1 - j] == (in(a, j) ? '1' : '0'), "prints the low bits");
}
