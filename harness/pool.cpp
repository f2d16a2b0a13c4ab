// C26: pooled values: one address per value, exact reference counts, released with the pool
#include "sx.h"
#include <mutable/util/Pool.hpp>
#include <memory>
#include <vector>
#include <string>
using namespace m;
static bool coarse;
struct HashK { uint64_t operator()(uint32_t x) const { if (!coarse) sx_yield(); return x & 1; } };      // few hash values: collisions in every bucket
struct EqK { bool operator()(uint32_t a, uint32_t b) const { if (!coarse) sx_yield(); return a == b; } };
template<bool TS> using IntPool = PODPool<uint32_t, HashK, EqK, std::identity, TS>;
// ---- histories over integer values
template<bool TS> static void ints(unsigned n) {
    using P = typename IntPool<TS>::proxy_type; using O = typename IntPool<TS>::proxy_optional_type; uint64_t live = sx_heap_live();
    { IntPool<TS> pool; { std::vector<std::pair<std::unique_ptr<P>, uint32_t>> H; std::vector<std::pair<std::unique_ptr<O>, std::pair<bool, uint32_t>>> Q; std::vector<uint32_t> seen; H.reserve(8); Q.reserve(8);
      auto audit = [&] {
          for (auto &h : H) if (h.first) { uint32_t c = 0; for (auto &g : H) if (g.first && g.second == h.second) c++; for (auto &o : Q) if (o.first && o.second.first && o.second.second == h.second) c++; sx_check(**h.first == h.second, "a handle shows its value"); sx_check(h.first->count() == c, "the count is the number of live handles"); for (auto &g : H) if (g.first) sx_check((*g.first == *h.first) == (g.second == h.second) && (&**g.first == &**h.first) == (g.second == h.second), "equal values share one address, others do not"); }
          for (auto &o : Q) { sx_check(o.first->has_value() == o.second.first, "presence"); if (o.second.first) sx_check(**o.first == o.second.second, "an optional handle shows its value"); else sx_check(o.first->count() == 0, "no value, no count"); } };
      for (unsigned i = 0; i < n; i++) {
          unsigned k = H.size() ? 8 : 1;
          switch (sx_choose(k, "op")) {
            case 0: { uint32_t v = (uint32_t)sx_sym(32, "v"); H.emplace_back(new P(pool(v)), v); seen.push_back(v); break; }
            case 1: { unsigned j = sx_choose(H.size(), "of"); uint32_t v = H[j].second; P *p = new P(*H[j].first); H.emplace_back(p, v); break; }
            case 2: { unsigned j = sx_choose(H.size(), "of"); H.erase(H.begin() + j); break; }
            case 3: { unsigned j = sx_choose(H.size(), "of"), l = sx_choose(H.size(), "to"); *H[l].first = *H[j].first; H[l].second = H[j].second; break; }
            case 4: { unsigned j = sx_choose(H.size(), "of"); P *p = new P(std::move(*H[j].first)); H[j].first.reset(p); break; }
            case 5: { unsigned j = sx_choose(H.size(), "of"); Q.emplace_back(new O(*H[j].first), std::make_pair(true, H[j].second)); break; }
            case 6: { O o; sx_check(!o.has_value(), "empty by default"); unsigned j = sx_choose(H.size(), "of"); o = O(std::move(*H[j].first)); H[j].first.reset(new P(o.assert_not_none())); Q.emplace_back(new O(std::move(o)), std::make_pair(true, H[j].second)); break; }
            case 7: { Q.emplace_back(new O(), std::make_pair(false, 0u)); if (Q.size() > 1) { unsigned j = sx_choose(Q.size(), "with"); swap(*Q[0].first, *Q[j].first); std::swap(Q[0].second, Q[j].second); } break; }
          }
          audit();
      }
      unsigned distinct = 0; for (unsigned i = 0; i < seen.size(); i++) { bool d = true; for (unsigned j = 0; j < i; j++) d &= seen[j] != seen[i]; distinct += d; } sx_check(pool.size() == distinct, "one entry per distinct value"); } }
    sx_check(sx_heap_live() == live, "the pool releases every value");
}
SX_MAIN(int_history) { ints<false>(SX_THOROUGH ? 5 : 4); }
SX_MAIN(int_history_safe) { ints<true>(SX_THOROUGH ? 4 : 3); }
SX_MAIN(optional_none) { IntPool<false> pool; using P = IntPool<false>::proxy_type; using O = IntPool<false>::proxy_optional_type; O o; bool th = false; try { o.assert_not_none(); } catch (const m::invalid_argument &) { th = true; } sx_check(th, "asking an empty handle for its value is rejected"); uint32_t v = (uint32_t)sx_sym(32, "v"); o = pool(v); sx_check(o.has_value() && *o == v && o.count() == 1, "assignment from a handle"); { P p(o); sx_check(o.count() == 2 && *p == v, "conversion shares the value"); } sx_check(o.count() == 1, "and gives it back"); P q(std::move(o)); sx_check(q.count() == 1 && !o.has_value(), "moving empties the source"); }
// ---- strings
SX_MAIN(strings) {
    uint64_t live = sx_heap_live();
    { StringPool pool; unsigned n = 1 + sx_choose(3, "n"); char b[4][4]; std::vector<PooledString> H; std::vector<unsigned> rep;
      for (unsigned i = 0; i < n; i++) { unsigned l = sx_choose(3, "len"); for (unsigned j = 0; j < l; j++) b[i][j] = "a\x80"[sx_choose(2, "c")]; b[i][l] = 0; const char *arg = b[i]; H.push_back(sx_choose(2, "view") ? pool(std::string_view(arg, l)) : pool(arg)); }
      for (unsigned i = 0; i < n; i++) { sx_check(strcmp(*H[i], b[i]) == 0 && *H[i] != b[i], "a handle shows a copy of its string"); uint32_t c = 0; for (unsigned j = 0; j < n; j++) { bool eq = strcmp(b[i], b[j]) == 0; c += eq; sx_check((*H[i] == *H[j]) == eq && (H[i] == H[j]) == eq, "equal strings share one address"); } sx_check(H[i].count() == c, "count"); }
      b[0][0] = 'z'; PooledString again = pool(*H[0]); sx_check(again == H[0], "changing the argument afterwards does not matter"); }
    sx_check(sx_heap_live() == live, "the pool releases every string");
}
// ---- polymorphic values
struct Base { uint32_t v; static int alive; Base(uint32_t v) : v(v) { alive++; } Base(const Base &o) : v(o.v) { alive++; } Base(Base &&o) : v(o.v) { alive++; } virtual ~Base() { alive--; } virtual int kind() const = 0; };
int Base::alive = 0;
struct A : Base { using Base::Base; int kind() const override { return 1; } };
struct B : Base { using Base::Base; int kind() const override { return 2; } };
struct HB { uint64_t operator()(const Base &b) const { sx_yield(); return b.v & 1; } };
struct EB { bool operator()(const Base &a, const Base &b) const { sx_yield(); return a.kind() == b.kind() && a.v == b.v; } };
using Poly = Pool<Base, HB, EB, false>; using PolyS = Pool<Base, HB, EB, true>;
template<typename PL> static void poly() {
    uint64_t live = sx_heap_live();
    { PL pool; { uint32_t x = (uint32_t)sx_sym(32, "x"), y = (uint32_t)sx_sym(32, "y"), z = (uint32_t)sx_sym(32, "z");
      auto a1 = pool(A(x)); auto a2 = pool(A(y)); auto b1 = pool(B(x)); auto b2 = pool(B(z)); bool al = x == y, bl = x == z;
      sx_check((a1 == a2) == al && (&*a1 == &*a2) == al && (b1 == b2) == bl && (const Base*)&*a1 != (const Base*)&*b1, "one address per value and type"); sx_check(a1->v == x && a2->v == y && b1->v == x && b2->v == z && a1->kind() == 1 && b2->kind() == 2, "handles show their values");
      sx_check(a1.count() == 1u + al && b2.count() == 1u + bl, "count"); sx_check(pool.size() == 4u - al - bl && Base::alive == 4 - al - bl, "one object per distinct value");
      auto up = a1.template as<Base>(); sx_check(up == a1, "casts share the object"); sx_check(up.count() == 2u + al, "a cast handle counts"); { auto down = up.template as<A>(); sx_check(down == a1, "casts share the object"); sx_check((down == a2) == al, "casts share the object"); sx_check(down.count() == 3u + al, "a cast handle counts"); } up = b1; sx_check(up->v == x && up->kind() == 2, "assignment across types"); sx_check(a1.count() == 1u + al && b1.count() == 2u + bl, "assignment across types moves the reference"); { auto mv = std::move(a2); sx_check(mv.count() == 1u + al, "moving keeps the count"); a2 = mv; sx_check(mv.count() == 2u + al, "assignment adds a reference"); } sx_check(a2.count() == 1u + al, "handles give their reference back"); } }
    sx_check(Base::alive == 0 && sx_heap_live() == live, "the pool destroys every object once");
}
SX_MAIN(polymorphic) { poly<Poly>(); }
SX_MAIN(polymorphic_safe) { poly<PolyS>(); }
// ---- threads pooling the same and different values
static IntPool<true> *TP; static const uint32_t *shown[3]; static uint32_t val[3];
template<int I> static void pooler(void *) { auto h = (*TP)(val[I]); shown[I] = &*h; sx_check(*h == val[I], "a handle shows its value"); auto h2 = h; if (!coarse) sx_yield(); sx_check(h2.count() >= 2, "its own references count"); }
static void threads(unsigned n) {
    uint64_t live = sx_heap_live();
    { IntPool<true> pool(16); TP = &pool; for (unsigned i = 0; i < n; i++) val[i] = n > 2 && i < 2 ? 0 : sx_choose(2, "value") * 2; bool pre = n < 3 && sx_choose(2, "pooled before"); { if (pre) pool((uint32_t)0); } sx_spawn(pooler<0>, nullptr); sx_spawn(pooler<1>, nullptr); if (n > 2) sx_spawn(pooler<2>, nullptr); sx_join_all();
      for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) sx_check((shown[i] == shown[j]) == (val[i] == val[j]), "one address per value"); bool z = pre, t = false; for (unsigned i = 0; i < n; i++) (val[i] ? t : z) = true; sx_check(pool.size() == (unsigned)z + t, "one entry per distinct value"); for (unsigned i = 0; i < n; i++) sx_check(pool(val[i]).count() == 1, "all references were given back"); }
    sx_check(sx_heap_live() == live, "the pool releases every value");
}
SX_MAIN(threads2) { threads(2); }
