// C24: doubly_linked_list, sorted_vector and dyn_array against the plain sequence they stand for
#include "sx.h"
#include <mutable/util/ADT.hpp>
#include <string>
#include <vector>
using namespace m;
typedef uint16_t T;
static T val() { return (T)sx_sym(16, "v"); }
template<typename L, typename V> static void same(L &l, const V &w) {
    const L &c = l; sx_check(l.size() == w.size() && l.empty() == w.empty(), "size");
    std::size_t i = 0; bool eq = true; for (auto it = l.begin(); it != l.end(); ++it, ++i) { if (i >= w.size()) break; eq &= *it == w[i]; } sx_check(i == w.size() && eq, "forward iteration");
    i = w.size(); eq = true; for (auto it = l.end(); it != l.begin(); ) { --it; if (i == 0) { eq = false; break; } eq &= *it == w[--i]; } sx_check(i == 0 && eq, "backward iteration");
    i = w.size(); eq = true; for (auto it = c.rbegin(); it != c.rend(); ++it) { if (i == 0) { eq = false; break; } eq &= *it == w[--i]; } sx_check(i == 0 && eq, "reverse iteration");
    i = 0; eq = true; for (auto it = c.cbegin(); it != c.cend(); it++) eq &= *it == w[i++]; sx_check(i == w.size() && eq, "constant iteration");
    if (!w.empty()) sx_check(l.front() == w.front() && l.back() == w.back() && c.front() == w.front() && c.back() == w.back(), "ends");
}
template<typename L> static auto at(L &l, unsigned p) { auto it = l.begin(); while (p--) ++it; return it; }
using DL = doubly_linked_list<T>;
#define N (SX_THOROUGH ? 5 : 4)
static void step(DL &l, std::vector<T> &w) {
    unsigned n = w.size();
    switch (sx_choose(11, "op")) {
        case 0: { T v = val(); l.push_back(v); w.push_back(v); break; }
        case 1: { T v = val(); l.push_front(v); w.insert(w.begin(), v); break; }
        case 2: { unsigned p = sx_choose(n + 1, "pos"); T v = val(); auto it = l.insert(at(l, p), v); sx_check(*it == v && it == at(l, p), "insertion returns the new element"); w.insert(w.begin() + p, v); break; }
        case 3: { if (!n) return; unsigned p = sx_choose(n, "pos"); auto it = l.erase(at(l, p)); sx_check(it == at(l, p), "removal returns the successor"); w.erase(w.begin() + p); break; }
        case 4: { if (!n) return; T v = l.pop_back(); sx_check(v == w.back(), "pop_back"); w.pop_back(); break; }
        case 5: { if (!n) return; T v = l.pop_front(); sx_check(v == w.front(), "pop_front"); w.erase(w.begin()); break; }
        case 6: { l.reverse(); std::reverse(w.begin(), w.end()); break; }
        case 7: { unsigned p = sx_choose(n + 1, "pos"), c = sx_choose(3, "count"); T v = val(); l.insert(at(l, p), (DL::size_type)c, v); w.insert(w.begin() + p, c, v); break; }
        case 8: { unsigned p = sx_choose(n + 1, "pos"), c = sx_choose(3, "count"); T a[2] = {val(), val()}; auto it = l.insert(at(l, p), a, a + c); sx_check(it == at(l, p), "insertion returns the first new element"); w.insert(w.begin() + p, a, a + c); break; }
        case 9: { T v = val(); unsigned p = sx_choose(n + 1, "pos"); l.emplace(at(l, p), v); w.insert(w.begin() + p, v); break; }
        case 10: { DL::const_iterator ci = l.cbegin(); if (!n) return; l.erase(ci); w.erase(w.begin()); break; }
    }
}
SX_MAIN(list_history) { uint64_t live = sx_heap_live(); { DL l; std::vector<T> w; unsigned n = SX_THOROUGH ? 4 : 3; for (unsigned i = 0; i < n; i++) step(l, w); same(l, w); } sx_check(sx_heap_live() == live, "every node is released"); }
SX_MAIN(list_from3) { T a[3] = {val(), val(), val()}; DL l(a, a + 3); std::vector<T> w(a, a + 3); if (sx_choose(2, "reversed")) { l.reverse(); std::reverse(w.begin(), w.end()); } step(l, w); step(l, w); same(l, w); }
SX_MAIN(list_copies) {
    uint64_t live = sx_heap_live();
    { unsigned n = sx_choose(4, "n"), k = sx_choose(3, "k"); DL a, b; std::vector<T> x, y; for (unsigned i = 0; i < n; i++) { T v = val(); a.push_back(v); x.push_back(v); } for (unsigned i = 0; i < k; i++) { T v = val(); b.emplace_front(v); y.insert(y.begin(), v); }
      switch (sx_choose(6, "op")) {
        case 0: { DL c(a); same(c, x); same(a, x); T v = val(); c.push_back(v); same(a, x); break; } case 1: { DL c(std::move(a)); same(c, x); sx_check(a.empty() && a.begin() == a.end(), "moved-from list is empty"); T v = val(); a.push_back(v); same(a, std::vector<T>{v}); break; }
        case 2: { b = DL(a); same(b, x); same(a, x); break; } case 3: { b = std::move(a); same(b, x); break; } case 4: { swap(a, b); same(a, y); same(b, x); break; } case 5: { a.clear(); same(a, std::vector<T>{}); T v = val(); a.push_front(v); same(a, std::vector<T>{v}); break; } } }
    sx_check(sx_heap_live() == live, "every node is released");
}
SX_MAIN(list_owning) { // elements owning memory are destroyed exactly once
    uint64_t live = sx_heap_live();
    { doubly_linked_list<std::string> l; std::vector<std::string> w; unsigned n = sx_choose(4, "n"); for (unsigned i = 0; i < n; i++) { std::string s(20 + i, 'a' + i); if (sx_choose(2, "front")) { l.push_front(s); w.insert(w.begin(), s); } else { l.push_back(s); w.push_back(s); } }
      if (n) switch (sx_choose(5, "op")) { case 0: { unsigned p = sx_choose(n, "pos"); l.erase(at(l, p)); w.erase(w.begin() + p); break; } case 1: { std::string s = l.pop_back(); sx_check(s == w.back(), "popped"); w.pop_back(); break; } case 2: { std::string s = l.pop_front(); sx_check(s == w.front(), "popped"); w.erase(w.begin()); break; } case 3: { std::string t(25, 'z'); l.push_back(std::move(t)); w.push_back(std::string(25, 'z')); break; } case 4: { doubly_linked_list<std::string> c(l); l = std::move(c); break; } }
      sx_check(l.size() == w.size(), "size"); unsigned i = 0; for (auto &s : l) sx_check(s == w[i++], "contents"); }
    sx_check(sx_heap_live() == live, "every element is released");
}
SX_MAIN(list_iterators) { // stepping forwards and backwards from every position
    unsigned n = 1 + sx_choose(N, "n"); DL l; std::vector<T> w; for (unsigned i = 0; i < n; i++) { T v = val(); l.push_back(v); w.push_back(v); }
    unsigned p = sx_choose(n + 1, "start"); auto it = at(l, p); for (unsigned k = 0; k < 4; k++) { if (sx_choose(2, "dir")) { if (p == n) continue; if (sx_choose(2, "post")) { auto o = it++; sx_check(*o == w[p], "post-increment returns the old position"); } else ++it; p++; } else { if (p == 0) continue; if (sx_choose(2, "post")) { auto o = it--; sx_check(p == n ? o == l.end() : *o == w[p], "post-decrement returns the old position"); } else --it; p--; } sx_check((it == l.end()) == (p == n) && (it == l.begin()) == (p == 0), "position"); if (p < n) sx_check(*it == w[p] && it.operator->() == &*it, "element"); }
    DL::const_iterator c = it; sx_check(p == n ? c == l.cend() : *c == w[p], "conversion to a constant iterator");
}
struct Desc { bool operator()(T a, T b) const { return a > b; } };
template<typename C> static void sorted_run() {
    sorted_vector<T, C> s; std::vector<T> w; unsigned n = sx_choose(N + 1, "n"); C c;
    for (unsigned i = 0; i < n; i++) { T v = val(); auto it = s.insert(v); sx_check(*it == v && it >= s.begin() && it < s.end(), "insertion returns the new element"); w.push_back(v); }
    T q = val(); unsigned a = 0, b = 0; for (T x : s) a += x == q; for (T x : w) b += x == q; sx_check(a == b, "exactly the inserted elements"); sx_check(s.contains(q) == (b != 0), "contains"); sx_check(s.size() == n && s.empty() == (n == 0), "size");
    bool ord = true; for (std::size_t i = 1; i < s.size(); i++) ord &= !c(s.begin()[i], s.begin()[i - 1]); sx_check(ord, "elements are in order"); const auto &cs = s; sx_check(cs.contains(q) == (b != 0) && cs.end() - cs.begin() == n && cs.cend() - cs.cbegin() == n, "constant access");
}
SX_MAIN(sorted_ascending) { sorted_run<std::less<T>>(); }
SX_MAIN(sorted_descending) { sorted_run<Desc>(); }
SX_MAIN(sorted_range) { sorted_vector<T> s; s.reserve(4); T a[3]; unsigned n = sx_choose(4, "n"); for (auto &x : a) x = val(); T v = val(); s.insert(v); s.insert(a, a + n); T q = val(); unsigned x = 0, y = q == v; for (unsigned i = 0; i < n; i++) y += a[i] == q; for (T e : s) x += e == q; sx_check(x == y && s.size() == n + 1, "exactly the inserted elements"); bool ord = true; for (unsigned i = 1; i <= n; i++) ord &= s.begin()[i - 1] <= s.begin()[i]; sx_check(ord, "elements are in order"); }
SX_MAIN(array) {
    uint64_t live = sx_heap_live();
    { unsigned n = sx_choose(5, "n"), k = sx_choose(5, "k"); T a[4], b[4]; for (auto &x : a) x = val(); for (auto &x : b) x = val(); dyn_array<T> A(a, a + n), B(b, b + k); const dyn_array<T> &C = A;
      sx_check(A.size() == n && A.end() - A.begin() == n && C.cend() - C.cbegin() == n, "size"); bool eq = n == k; for (unsigned i = 0; i < n && i < k; i++) eq &= a[i] == b[i]; sx_check((A == B) == eq && (A != B) == !eq, "equality compares size and elements");
      for (unsigned i = 0; i < n; i++) sx_check(A[i] == a[i] && C[i] == a[i] && A.at(i) == a[i] && C.at(i) == a[i] && A.data()[i] == a[i] && A.begin()[i] == a[i], "elements");
      uint64_t p = sx_make<uint64_t>("p"); bool th = false; if (p >= n) { try { A.at(p); } catch (const m::out_of_range &) { th = true; } sx_check(th, "at rejects positions out of range"); th = false; try { C.at(p); } catch (const m::out_of_range &) { th = true; } sx_check(th, "const at rejects positions out of range"); sx_cover("rejected"); }
      dyn_array<T> D(A); sx_check(D == A, "copy"); if (n) { D[0] = (T)~a[0]; sx_check(A[0] == a[0] && D != A, "copies are independent"); } dyn_array<T> E2(std::move(D)); sx_check(E2.size() == n, "moved"); B = std::move(A); sx_check(B.size() == n, "move assignment"); for (unsigned i = 0; i < n; i++) sx_check(B[i] == a[i], "moved elements"); dyn_array<T> Z, Z3(3); sx_check(Z.size() == 0 && Z.begin() == Z.end() && Z3.size() == 3 && Z3[0] == 0 && Z3[2] == 0, "default elements"); }
    sx_check(sx_heap_live() == live, "all memory is released");
}
SX_MAIN(array_owning) { uint64_t live = sx_heap_live(); { std::vector<std::string> v{std::string(20, 'a'), "b", std::string(40, 'c')}; dyn_array<std::string> A(v.begin(), v.end()), B(A), C(2); C = std::move(B); sx_check(C.size() == 3 && C[0] == v[0] && C[2] == v[2] && A == C, "owning elements"); } sx_check(sx_heap_live() == live, "all memory is released"); }
SX_MAIN(views) { // range, reversed range and projecting view
    unsigned n = sx_choose(5, "n"); std::vector<std::pair<T, T>> v; for (unsigned i = 0; i < n; i++) { T a = val(), b = val(); v.emplace_back(a, b); }
    range r(v.begin(), v.end()); sx_check(r.size() == n && r.empty() == (n == 0), "range size"); unsigned i = 0; for (auto &x : r) sx_check(&x == &v[i++], "range elements"); i = n; for (auto &x : r.reverse()) sx_check(&x == &v[--i], "reversed range");
    auto proj = [](std::vector<std::pair<T, T>>::iterator it) -> T & { return it->second; }; view w(v.begin(), v.end(), proj); i = 0; for (T &x : w) { sx_check(&x == &v[i++].second, "projected elements"); x++; } sx_check(i == n, "view covers the range");
}
