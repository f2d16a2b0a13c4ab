// C19: partitioning and quicksort
#include "sx.h"
#include <limits>
#include "util/algorithms.hpp"
#include <vector>
using namespace m;
template<typename T> static void part(unsigned n) {
    T a[12], b[12]; for (unsigned i = 0; i < n; i++) a[i] = b[i] = (T)sx_sym(8 * sizeof(T), "a"); T p = (T)sx_sym(8 * sizeof(T), "pivot"), q = (T)sx_sym(8 * sizeof(T), "q");
    T *m = partition_predicated_naive{}(p, a, a + n); sx_check(m >= a && m <= a + n, "the split lies in the range"); bool lo = true, hi = true; for (T *x = a; x < m; x++) lo &= *x <= p; for (T *x = m; x < a + n; x++) hi &= *x >= p;
    sx_check(lo && hi, "elements before the split do not exceed the pivot, the others are not below it"); unsigned x = 0, y = 0; for (unsigned i = 0; i < n; i++) x += a[i] == q, y += b[i] == q; sx_check(x == y, "a permutation");
    if (n) { sx_check(verify_partition(a, m, a + n), "verify_partition accepts"); }
}
template<typename T> static void srt(unsigned n) {
    std::vector<T> a(n + 2), b; T g0 = (T)sx_sym(8 * sizeof(T), "guard"); a[0] = a[n + 1] = g0; for (unsigned i = 1; i <= n; i++) a[i] = (T)sx_sym(8 * sizeof(T), "a"); b = a; T q = (T)sx_sym(8 * sizeof(T), "q");
    m::qsort(a.begin() + 1, a.begin() + 1 + n, partition_predicated_naive{}); bool ord = true; for (unsigned i = 2; i <= n; i++) ord &= a[i - 1] <= a[i]; sx_check(ord, "ascending order");
    unsigned x = 0, y = 0; for (unsigned i = 1; i <= n; i++) x += a[i] == q, y += b[i] == q; sx_check(x == y, "a permutation"); sx_check(a[0] == g0 && a[n + 1] == g0, "nothing outside the range is touched");
}
#define PN (SX_THOROUGH ? 10 : 8)
#define QN (SX_THOROUGH ? 7 : 6)
SX_MAIN(partition_u8) { part<uint8_t>(sx_choose(PN + 1, "n")); }
SX_MAIN(partition_i32) { part<int32_t>(sx_choose(SX_THOROUGH ? 6 : 5, "n")); }
SX_MAIN(partition_u64) { part<uint64_t>(sx_choose(SX_THOROUGH ? 6 : 5, "n")); }
SX_MAIN(sort_u8) { srt<uint8_t>(sx_choose(QN + 1, "n")); }
SX_MAIN(sort_i64) { srt<int64_t>(sx_choose(QN, "n")); }
SX_MAIN(sort_pointers) { int32_t a[4]; for (auto &x : a) x = (int32_t)sx_sym(32, "a"); m::qsort(a, a + 4, partition_predicated_naive{}); sx_check(a[0] <= a[1] && a[1] <= a[2] && a[2] <= a[3], "ascending order"); }
SX_MAIN(sort_equal) { // many duplicates in longer sequences
    unsigned n = SX_THOROUGH ? 14 : 10; uint8_t a[14]; unsigned ones = 0; for (unsigned i = 0; i < n; i++) { a[i] = (uint8_t)sx_sym(1, "bit"); ones += a[i]; } m::qsort(a, a + n, partition_predicated_naive{}); bool ok = true; for (unsigned i = 0; i < n; i++) ok &= a[i] == (i >= n - ones); sx_check(ok, "ascending order of a 0/1 sequence"); }
