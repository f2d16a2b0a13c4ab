// C10: graph routines over all graphs of N vertices; oracles are Warshall closures over the edge bits
#include "sx.h"
#include <mutable/util/AdjacencyMatrix.hpp>
#include <mutable/util/MinCutAGaT.hpp>
#include <cstring>
using namespace m;
static uint64_t U(SmallBitset s) { return uint64_t(s); }
// rows of an n x n relation
struct G { unsigned n; uint32_t r[8]; };
static G sym_graph(unsigned n, bool directed, bool loops = false) {
    G g{n, {}}; 
    for (unsigned i = 0; i < n; i++) for (unsigned j = directed ? 0 : i; j < n; j++) { if (i == j && !loops) continue; uint32_t e = sx_sym(1, "e"); g.r[i] |= e << j; if (!directed) g.r[j] |= e << i; }
    return g;
}
static void fill(AdjacencyMatrix &M, const G &g, unsigned base) { for (unsigned i = 0; i < g.n; i++) for (unsigned j = 0; j < g.n; j++) M(base + i, base + j) = bool((g.r[i] >> j) & 1); }
static uint32_t reach(const G &g, uint32_t src, uint32_t in) { uint32_t R = src & in; for (unsigned k = 0; k < g.n; k++) for (unsigned i = 0; i < g.n; i++) R |= (0u - ((R >> i) & 1)) & g.r[i] & in; return R; }
static uint32_t nbr(const G &g, uint32_t S) { uint32_t R = 0; for (unsigned i = 0; i < g.n; i++) R |= (0u - ((S >> i) & 1)) & g.r[i]; return R & ~S; }
static bool conn(const G &g, uint32_t S) { return reach(g, S & (0u - S), S) == S; }
#define NV (SX_THOROUGH ? 5 : 4)

SX_MAIN(matrix) { // the matrix itself: element access over all 64 x 64 positions
    unsigned n = 64; AdjacencyMatrix M(n); uint64_t i = sx_range(0, 63, "i"), j = sx_range(0, 63, "j"), k = sx_range(0, 63, "k"), l = sx_range(0, 63, "l"); i = sx_fork_value(i & 7) * 9; i = i > 63 ? 63 : i; k = sx_bool("samerow") ? i : (i + 1) % 64;
    M(i, j) = true; const AdjacencyMatrix C(M); sx_check(bool(C(i, j)) && bool(M(i, j)) && bool(C.at(i, j)) && bool(M.at(i, j)), "element set");
    sx_check(bool(C(k, l)) == (k == i && l == j), "no other element set"); M(k, l) = false; sx_check(bool(M(i, j)) == !(k == i && l == j), "clearing one element leaves the others");
    sx_check((M == C) == (k == i && l == j ? false : true) && (M != C) == !(M == C), "equality is element-wise"); M(k, l) = M(i, j); sx_check(bool(M(k, l)) == bool(M(i, j)), "copying an element");
    AdjacencyMatrix S(5); uint64_t a = sx_make<uint64_t>("a"), b = sx_make<uint64_t>("b"); bool th = false; if (a >= 5 || b >= 5) { try { (void) bool(S.at(a, b)); } catch (const m::out_of_range &) { th = true; } sx_check(th, "at rejects positions out of bounds"); sx_cover("rejected"); }
    else { a = sx_fork_value(a); try { (void) bool(S.at(a, b)); } catch (const m::out_of_range &) { th = true; } sx_check(!th, "at accepts positions in bounds"); }
}
SX_MAIN(reachability) { // directed graphs with loops, vertices at two places of the matrix
    G g = sym_graph(SX_THOROUGH ? 4 : 3, true, true); unsigned base = sx_choose(2, "base") ? 64 - g.n : 0; AdjacencyMatrix M(64); fill(M, g, base); uint32_t all = (1u << g.n) - 1;
    uint32_t s = sx_sym(g.n, "src"), in = sx_sym(g.n, "in");
    sx_check(U(M.reachable(SmallBitset((uint64_t)s << base))) == (uint64_t)reach(g, s, all) << base, "reachable"); 
    sx_check(U(M.reachable(SmallBitset((uint64_t)s << base), SmallBitset((uint64_t)in << base))) == (uint64_t)reach(g, s, in) << base, "reachable within a set");
    sx_check(U(M.neighbors(SmallBitset((uint64_t)s << base))) == (uint64_t)nbr(g, s) << base, "neighbours");
}
SX_MAIN(connected) {
    G g = sym_graph(NV + 1, false); unsigned base = sx_choose(2, "base") ? 64 - g.n : 0; AdjacencyMatrix M(64); fill(M, g, base);
    uint32_t s = sx_sym(g.n, "s"); sx_check(M.is_connected(SmallBitset((uint64_t)s << base)) == conn(g, s), "connectedness");
}
SX_MAIN(connected_pair) {
    G g = sym_graph(NV + 1, false); unsigned base = sx_choose(2, "base") ? 64 - g.n : 0; AdjacencyMatrix M(64); fill(M, g, base);
    uint32_t s = sx_sym(g.n, "s"), t = sx_sym(g.n, "t"); bool e = false; for (unsigned i = 0; i < g.n; i++) e |= (((t >> i) & 1) != 0) & ((g.r[i] & s) != 0);
    sx_check(M.is_connected(SmallBitset((uint64_t)s << base), SmallBitset((uint64_t)t << base)) == e, "an edge between two sets");
}
SX_MAIN(closure_directed) {
    G g = sym_graph(SX_THOROUGH ? 4 : 3, true, true); AdjacencyMatrix M(g.n); fill(M, g, 0); AdjacencyMatrix C = M.transitive_closure_directed(); uint32_t all = (1u << g.n) - 1;
    for (unsigned i = 0; i < g.n; i++) { uint32_t w = reach(g, g.r[i], all); for (unsigned j = 0; j < g.n; j++) sx_check(bool(C(i, j)) == bool((w >> j) & 1), "a pair is in the closure iff there is a path"); }
}
SX_MAIN(closure_undirected) {
    G g = sym_graph(NV, false, true); AdjacencyMatrix M(g.n); fill(M, g, 0); AdjacencyMatrix C = M.transitive_closure_undirected(); uint32_t all = (1u << g.n) - 1;
    for (unsigned i = 0; i < g.n; i++) { uint32_t w = reach(g, g.r[i], all); for (unsigned j = 0; j < g.n; j++) sx_check(bool(C(i, j)) == bool((w >> j) & 1), "a pair is in the closure iff there is a path"); }
}
SX_MAIN(csg) {
    G g = sym_graph(NV, false); unsigned base = sx_choose(2, "base") ? 64 - g.n : 0; AdjacencyMatrix M(64); fill(M, g, base); uint32_t super = sx_sym(g.n, "super");
    unsigned cnt[64]; memset(cnt, 0, sizeof cnt); bool alien = false;
    M.for_each_CSG_undirected(SmallBitset((uint64_t)super << base), [&](SmallBitset S) { uint64_t s = U(S) >> base; if (s << base != U(S) || s >= 64) alien = true; else cnt[s]++; });
    sx_check(!alien, "subgraphs of the graph only");
    for (uint32_t S = 0; S < (1u << g.n); S++) sx_check(cnt[S] == unsigned(S && (S & ~super) == 0 && conn(g, S)), "every connected subgraph exactly once and nothing else");
}
SX_MAIN(csg_source) { // only subgraphs containing a source vertex, from sources that are a subset
    G g = sym_graph(SX_THOROUGH ? 4 : 3, false); AdjacencyMatrix M(g.n); fill(M, g, 0); uint32_t super = sx_sym(g.n, "super"), src = sx_sym(g.n, "src"); unsigned cnt[64]; memset(cnt, 0, sizeof cnt);
    M.for_each_CSG_undirected(SmallBitset(super), SmallBitset(src), [&](SmallBitset S) { cnt[U(S) & 63]++; });
    for (uint32_t S = 0; S < (1u << g.n); S++) sx_check(cnt[S] == unsigned(S && (S & ~super) == 0 && (S & src) && conn(g, S)), "every connected subgraph containing a source exactly once");
}
SX_MAIN(csg_pairs) {
    G g = sym_graph(NV, false); unsigned base = sx_choose(2, "base") ? 64 - g.n : 0; AdjacencyMatrix M(64); fill(M, g, base); uint32_t all = (1u << g.n) - 1, super = sx_choose(3, "super"); super = super == 0 ? all : super == 1 ? all & ~1u : all >> 1;
    static uint8_t cnt[32][32]; memset(cnt, 0, sizeof cnt); bool alien = false;
    M.for_each_CSG_pair_undirected(SmallBitset((uint64_t)super << base), [&](SmallBitset A, SmallBitset B) { uint64_t a = U(A) >> base, b = U(B) >> base; if (a >= 32 || b >= 32) alien = true; else cnt[a][b]++; });
    sx_check(!alien, "subgraphs of the graph only");
    for (uint32_t A = 0; A < (1u << g.n); A++) for (uint32_t B = A; B < (1u << g.n); B++) {
        bool want = A && B && !(A & B) && !((A | B) & ~super) && conn(g, A) && conn(g, B) && (nbr(g, A) & B);
        sx_check(unsigned(cnt[A][B]) + (A == B ? 0 : cnt[B][A]) == unsigned(want), "every connected pair exactly once and nothing else");
    }
}
SX_MAIN(min_cut) {
    G g = sym_graph(NV, false); unsigned base = sx_choose(2, "base") ? 64 - g.n : 0; AdjacencyMatrix M(64); fill(M, g, base); uint32_t S = sx_sym(g.n, "S"); S = sx_fork_value(S);
    if ((S & (S - 1)) == 0 || !conn(g, S)) return; sx_cover("partitioned");
    static uint8_t cnt[32][32]; memset(cnt, 0, sizeof cnt); bool alien = false;
    MinCutAGaT{}.partition(M, [&](SmallBitset A, SmallBitset B) { uint64_t a = U(A) >> base, b = U(B) >> base; if (a >= 32 || b >= 32) alien = true; else cnt[a][b]++; }, SmallBitset((uint64_t)S << base));
    sx_check(!alien, "parts of the set only");
    for (uint32_t A = 0; A < (1u << g.n); A++) for (uint32_t B = A; B < (1u << g.n); B++) {
        bool want = A && B && !(A & B) && (A | B) == S && conn(g, A) && conn(g, B);
        sx_check(unsigned(cnt[A][B]) + (A == B ? 0 : cnt[B][A]) == unsigned(want), "every partition into two connected parts exactly once and nothing else");
    }
}
static void msf(unsigned n, bool complete) {
    G g = sym_graph(n, false); if (complete) for (unsigned i = 0; i < n; i++) sx_assume(g.r[i] == (((1u << n) - 1) & ~(1u << i)));
    AdjacencyMatrix M(n); fill(M, g, 0); int32_t w[6][6]; memset(w, 0, sizeof w); for (unsigned i = 0; i < n; i++) for (unsigned j = i + 1; j < n; j++) w[i][j] = w[j][i] = (int32_t)sx_sym(32, "w");
    AdjacencyMatrix F = M.minimum_spanning_forest([&](std::size_t u, std::size_t v) -> double { return w[u][v]; });
    G f{n, {}}; unsigned edges = 0; uint32_t all = (1u << n) - 1;
    for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) if (bool(F(i, j))) { sx_check((g.r[i] >> j) & 1, "edges of the graph only"); sx_check(bool(F(j, i)), "symmetric"); f.r[i] |= 1u << j; edges += i < j; }
    unsigned comp = 0; for (unsigned i = 0; i < n; i++) { uint32_t R = reach(g, 1u << i, all); sx_check(reach(f, 1u << i, all) == R, "the forest connects what the graph connects"); comp += (R & ((1u << i) - 1)) == 0; }
    sx_check(edges + comp == n, "a forest");
    // minimality: replacing a forest edge by a graph edge across the same cut never gets lighter
    for (unsigned i = 0; i < n; i++) for (unsigned j = i + 1; j < n; j++) if ((f.r[i] >> j) & 1) {
        G h = f; h.r[i] &= ~(1u << j); h.r[j] &= ~(1u << i); uint32_t side = reach(h, 1u << i, all); bool best = true;
        for (unsigned u = 0; u < n; u++) for (unsigned v = 0; v < n; v++) if (((side >> u) & 1) && !((side >> v) & 1)) best &= !((g.r[u] >> v) & 1) | (w[i][j] <= w[u][v]);
        sx_check(best, "every forest edge is a lightest edge across its cut");
    }
}
SX_MAIN(spanning_forest) { msf(SX_THOROUGH ? 4 : 3, false); }
SX_MAIN(spanning_tree4) { msf(4, true); }
SX_MAIN(spanning_empty) { AdjacencyMatrix M(0); AdjacencyMatrix F = M.minimum_spanning_forest([](std::size_t, std::size_t) { return 1.; }); sx_check(F == AdjacencyMatrix(0), "empty graph"); }
SX_MAIN(directed_tree) { // all labelled trees
    unsigned n = NV, root = sx_choose(n, "root"); G g = sym_graph(n, false); unsigned edges = 0; for (unsigned i = 0; i < n; i++) for (unsigned j = i + 1; j < n; j++) edges += (g.r[i] >> j) & 1;
    sx_assume((edges == n - 1) & (reach(g, 1, (1u << n) - 1) == (1u << n) - 1)); sx_cover("tree");
    AdjacencyMatrix M(n); fill(M, g, 0); AdjacencyMatrix T = M.tree_directed_away_from(SmallBitset::Singleton(root));
    uint32_t all = (1u << n) - 1;
    for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) if (i != j) { // i -> j iff edge and i is on j's path to the root
        G h = g; h.r[i] &= ~(1u << j); h.r[j] &= ~(1u << i); bool want = ((g.r[i] >> j) & 1) && ((reach(h, 1u << i, all) >> root) & 1);
        sx_check(bool(T(i, j)) == want, "edges point away from the root");
    } else sx_check(!bool(T(i, j)), "no loops");
}
