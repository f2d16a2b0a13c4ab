// C09: every plan enumerator over every connected query graph of N relations, with the cardinality of every set of relations symbolic
#include "sqlenv.hpp"
#include <algorithm>
#include <mutable/catalog/CardinalityEstimator.hpp>
#include <mutable/catalog/CostFunction.hpp>
#include <mutable/catalog/CostFunctionCout.hpp>
#include <mutable/IR/PlanEnumerator.hpp>
#include <mutable/IR/PlanTable.hpp>
#include <mutable/IR/QueryGraph.hpp>
static unsigned N; static uint32_t ADJ[6]; static uint64_t CARD[64]; static bool CROSS; // the query, and whether cross products are part of the search space
static uint32_t closure(uint32_t src, uint32_t in) { uint32_t R = src & in; for (unsigned k = 0; k < N; k++) for (unsigned i = 0; i < N; i++) if ((R >> i) & 1) R |= ADJ[i] & in; return R; }
static bool conn(uint32_t S) { return S && closure(S & (0u - S), S) == S; }
static bool edge(uint32_t A, uint32_t B) { for (unsigned i = 0; i < N; i++) if (((A >> i) & 1) && (ADJ[i] & B)) return true; return false; }
static uint32_t U(Subproblem s) { return (uint32_t)uint64_t(s); }
// an estimator that knows the cardinality of every set of relations
struct Model : DataModel { uint32_t s; Model(uint32_t s) : s(s) { } void assign_to(Subproblem) override { } };
struct Est : CardinalityEstimatorCRTP<Est> {
    std::unique_ptr<DataModel> empty_model() const override { return std::make_unique<Model>(0); }
    std::unique_ptr<DataModel> estimate_scan(const QueryGraph&, Subproblem P) const override { return std::make_unique<Model>(U(P)); }
    std::unique_ptr<DataModel> estimate_filter(const QueryGraph&, const DataModel &d, const cnf::CNF&) const override { return std::make_unique<Model>(static_cast<const Model&>(d).s); }
    std::unique_ptr<DataModel> estimate_limit(const QueryGraph&, const DataModel &d, std::size_t, std::size_t) const override { return std::make_unique<Model>(static_cast<const Model&>(d).s); }
    std::unique_ptr<DataModel> estimate_grouping(const QueryGraph&, const DataModel &d, const std::vector<group_type>&) const override { return std::make_unique<Model>(static_cast<const Model&>(d).s); }
    std::unique_ptr<DataModel> estimate_join(const QueryGraph&, const DataModel &l, const DataModel &r, const cnf::CNF&) const override { uint32_t a = static_cast<const Model&>(l).s, b = static_cast<const Model&>(r).s; sx_check(a && b && !(a & b), "joins of disjoint sets of relations only"); return std::make_unique<Model>(a | b); }
    template<typename PT> std::unique_ptr<DataModel> operator()(estimate_join_all_tag, PT&&, const QueryGraph&, Subproblem S, const cnf::CNF&) const { return std::make_unique<Model>(U(S)); }
    std::size_t predict_cardinality(const DataModel &d) const override { return CARD[static_cast<const Model&>(d).s]; }
    void print(std::ostream&) const override { }
};
// C_out plus the size of the left input: depends on which input is left
struct Asym : CostFunctionCRTP<Asym> {
    template<typename PT> double operator()(calculate_filter_cost_tag, const PT &P, const QueryGraph&, const CardinalityEstimator&, Subproblem s, const cnf::CNF&) const { return P[s].cost; }
    template<typename PT> double operator()(calculate_grouping_cost_tag, const PT &P, const QueryGraph&, const CardinalityEstimator&, Subproblem s, const std::vector<const ast::Expr*>&) const { return P[s].cost; }
    template<typename PT> double operator()(calculate_join_cost_tag, const PT &P, const QueryGraph&, const CardinalityEstimator &CE, Subproblem l, Subproblem r, const cnf::CNF&) const {
        return double(CE.predict_cardinality(*P[l|r].model) + CE.predict_cardinality(*P[l].model)) + P[l].cost + P[r].cost; }
};
static bool ASYM;
static uint64_t jcost(uint32_t l, uint32_t r) { return CARD[l | r] + (ASYM ? CARD[l] : 0); }
// the costs of all bushy trees for S, and whether a cost is the least of them
static void trees(uint32_t S, std::vector<uint64_t> &out) {
    if (!(S & (S - 1))) { out.push_back(0); return; }
    uint32_t low = S & (0u - S);
    for (uint32_t A = (S - 1) & S; A; A = (A - 1) & S) if ((ASYM || (A & low)) && (CROSS || (conn(A) && conn(S ^ A)))) { std::vector<uint64_t> l, r; trees(A, l); trees(S ^ A, r); for (uint64_t x : l) for (uint64_t y : r) out.push_back(x + y + jcost(A, S ^ A)); }
}
static bool least(uint64_t c, uint32_t S) { std::vector<uint64_t> t; trees(S, t); bool ok = true; for (uint64_t x : t) ok &= c <= x; return ok; }
// the cost of the plan recorded for S, after checking that it is a plan for S
template<typename PT> static uint64_t plan(PT &P, uint32_t S) {
    if (!(S & (S - 1))) { sx_check(P.has_plan(Subproblem(S)) && P[Subproblem(S)].cost == 0, "relations cost nothing"); return 0; }
    sx_check(P.has_plan(Subproblem(S)), "a plan for every subproblem that is used"); auto &e = P[Subproblem(S)]; uint32_t l = U(e.left), r = U(e.right);
    sx_check(l && r && !(l & r) && (l | r) == S, "every relation exactly once"); if (!CROSS) sx_check(edge(l, r), "no cross product");
    sx_check(bool(e.model) && static_cast<const Model&>(*e.model).s == S, "the model describes the subproblem");
    uint64_t c = plan(P, l) + plan(P, r) + jcost(l, r); sx_check(e.cost == double(c), "the recorded cost is the cost of the recorded plan"); return c;
}
static void world(unsigned n, unsigned graphs, unsigned bits) { // graphs: 0 all connected ones, otherwise the nth of some shapes
    N = n; memset(ADJ, 0, sizeof ADJ); auto E = [](unsigned i, unsigned j) { ADJ[i] |= 1u << j; ADJ[j] |= 1u << i; };
    if (!graphs) { for (unsigned i = 0; i < n; i++) for (unsigned j = i + 1; j < n; j++) if (sx_bool("e")) E(i, j); if (!conn((1u << n) - 1)) sx_assume(false); }
    else switch (sx_choose(graphs, "shape")) {
        case 0: for (unsigned i = 1; i < n; i++) E(i - 1, i); break;            // chain
        case 1: for (unsigned i = 1; i < n; i++) E(0, i); break;                // star
        case 2: for (unsigned i = 0; i < n; i++) E(i, (i + 1) % n); break;      // cycle
        case 3: E(0, n - 1); E(n - 1, 1); for (unsigned i = 2; i + 1 < n; i++) E(1, i); break; // tree with scrambled numbers
        case 4: E(0, 2); E(1, 2); E(0, 1); for (unsigned i = 3; i < n; i++) E(i, i == 3 ? 0 : i - 1); break; // triangle with a tail
        default: for (unsigned i = 0; i < n; i++) for (unsigned j = i + 1; j < n; j++) E(i, j); }
    for (uint32_t S = 1; S < (1u << n); S++) CARD[S] = bits ? sx_sym(bits, "card") : 0;
}
struct PEnv : Env { QueryGraph G; PEnv() { auto &T = table("t", {{"a", I4()}}); db.cardinality_estimator(std::make_unique<Est>()); const char *nm[] = {"r0", "r1", "r2", "r3", "r4", "r5"};
    for (unsigned i = 0; i < N; i++) G.add_source(C.pool(nm[i]), T);
    AdjacencyMatrix &M = G.adjacency_matrix(); for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j < N; j++) M(i, j) = bool((ADJ[i] >> j) & 1); } };
template<typename PT> static void init(PT &P, const QueryGraph &G, const CardinalityEstimator &CE) { for (unsigned i = 0; i < N; i++) { Subproblem s = Subproblem::Singleton(i); P[s].cost = 0; P[s].model = CE.estimate_scan(G, s); } }
template<typename PT> static bool is_linear(PT &P, uint32_t S) { if (!(S & (S - 1))) return true; uint32_t l = U(P[Subproblem(S)].left), r = U(P[Subproblem(S)].right); return (!(l & (l - 1)) || !(r & (r - 1))) && is_linear(P, l) && is_linear(P, r); }
template<typename PT> static void split_greedily(PT &P, uint32_t S) { // every split has the least sum of sizes
    if (!(S & (S - 1))) return; uint32_t l = U(P[Subproblem(S)].left), r = U(P[Subproblem(S)].right); bool ok = true;
    for (uint32_t A = (S - 1) & S; A; A = (A - 1) & S) if (conn(A) && conn(S ^ A)) ok &= CARD[l] + CARD[r] <= CARD[A] + CARD[S ^ A];
    sx_check(ok, "every split has the least total size"); split_greedily(P, l); split_greedily(P, r);
}
static bool DISTINCT; // all cardinalities differ, so the greedy choice is unique
template<typename PT> static void inner(PT &P, uint32_t S, std::vector<uint32_t> &out) { if (!(S & (S - 1))) return; out.push_back(S); inner(P, U(P[Subproblem(S)].left), out); inner(P, U(P[Subproblem(S)].right), out); }
template<typename PT> static void merge_greedily(PT &P, uint32_t all) {
    std::vector<uint32_t> in; inner(P, all, in); std::vector<uint32_t> nodes; for (unsigned i = 0; i < N; i++) nodes.push_back(1u << i);
    while (nodes.size() > 1) {
        uint32_t pick = 0; for (size_t i = 0; i < nodes.size(); i++) for (size_t j = i + 1; j < nodes.size(); j++) { uint32_t u = nodes[i] | nodes[j]; if (std::find(in.begin(), in.end(), u) != in.end() && (!pick || CARD[u] < CARD[pick])) pick = u; }
        bool ok = true; for (size_t i = 0; i < nodes.size(); i++) for (size_t j = i + 1; j < nodes.size(); j++) if (edge(nodes[i], nodes[j])) ok &= CARD[pick] <= CARD[nodes[i] | nodes[j]];
        sx_check(ok, "the join of least result first"); std::vector<uint32_t> n2{pick}; for (uint32_t x : nodes) if (!(x & pick)) n2.push_back(x); nodes = n2;
    }
}
enum Kind { EXACT, FULL, HEUR }; // EXACT: the final plan is optimal; FULL: so is the plan of every connected subproblem
template<typename PT> static uint64_t one(PEnv &E, const char *name, Kind k) {
    PT P(E.G); auto &CE = E.db.cardinality_estimator(); init(P, E.G, CE); CostFunctionCout cout_; Asym asym; const CostFunction &CF = ASYM ? static_cast<const CostFunction&>(asym) : cout_;
    auto &pe = E.C.plan_enumerator(E.C.pool(name)); pe(E.G, CF, P); uint32_t all = (1u << N) - 1; uint64_t c = plan(P, all);
    if (k != HEUR) sx_check(least(c, all), "the plan of least cost");
    if (k == FULL) for (uint32_t S = 1; S < all; S++) if (CROSS || conn(S)) { sx_check(P.has_plan(Subproblem(S)), "a plan for every connected subproblem"); if (S & (S - 1)) sx_check(least(plan(P, S), S), "the plan of least cost for every connected subproblem"); }
    if (!strcmp(name, "IKKBZ")) sx_check(is_linear(P, all), "a linear plan");
    if (!strcmp(name, "TDGOO")) split_greedily(P, all);
    if (!strcmp(name, "GOO") && DISTINCT) merge_greedily(P, all);
    if (!CROSS) for (uint32_t S = 1; S <= all; S++) if (!conn(S)) sx_check(!P.has_plan(Subproblem(S)), "no plan with a cross product");
    return c;
}
static void both(PEnv &E, const char *name, Kind k) { if (sx_choose(2, "table")) one<PlanTableLargeAndSparse>(E, name, k); else one<PlanTableSmallOrDense>(E, name, k); }
static void exact(const char *name, Kind k) { world(3, 0, SX_THOROUGH ? 8 : 4); ASYM = k == FULL && sx_bool("asym"); PEnv E; both(E, name, k); }
static void shapes(const char *name, Kind k) { world(4, SX_THOROUGH ? 0 : 5, SX_THOROUGH ? 3 : 4); PEnv E; both(E, name, k); }
static const char *FULLS[] = {"DPccp", "DPsize", "DPsizeOpt", "DPsizeSub", "DPsub", "DPsubOpt"};
SX_MAIN(dp3) { exact(FULLS[sx_choose(6, "enumerator")], FULL); }
SX_MAIN(dp4) { shapes(FULLS[sx_choose(6, "enumerator")], FULL); }
SX_MAIN(topdown3) { exact(sx_choose(2, "enumerator") ? "TDbasic" : "TDMinCutAGaT", EXACT); }
SX_MAIN(topdown4) { shapes(sx_choose(2, "enumerator") ? "TDbasic" : "TDMinCutAGaT", EXACT); }
SX_MAIN(greedy3) { exact(sx_choose(2, "enumerator") ? "GOO" : "TDGOO", HEUR); }
SX_MAIN(greedy4) { shapes(sx_choose(2, "enumerator") ? "GOO" : "TDGOO", HEUR); }
SX_MAIN(goo_greedy) { world(4, SX_THOROUGH ? 0 : 5, 4); bool d = true; for (uint32_t S = 1; S < 16; S++) for (uint32_t T = 1; T < S; T++) if (S & (S - 1) && T & (T - 1)) d &= CARD[S] != CARD[T]; sx_assume(d); DISTINCT = true; PEnv E; one<PlanTableSmallOrDense>(E, "GOO", HEUR); }
SX_MAIN(all) { CROSS = true; world(3, 0, SX_THOROUGH ? 8 : 4); ASYM = sx_bool("asym"); PEnv E; both(E, "PEall", FULL); } // all bushy trees, also those with cross products
static void unit() { for (unsigned i = 0; i < N; i++) CARD[1u << i] = 1; }
template<typename PT> static void linear(PEnv &E) { uint64_t i = one<PT>(E, "IKKBZ", HEUR), l = one<PT>(E, "LinearizedDP", HEUR); sx_check(l <= i, "DP over the linearization is no worse than the linear plan"); }
SX_MAIN(linearized) { world(3, 0, 8); unit(); PEnv E; if (sx_choose(2, "table")) linear<PlanTableLargeAndSparse>(E); else linear<PlanTableSmallOrDense>(E); }
SX_MAIN(linearized4) { world(4, SX_THOROUGH ? 0 : 5, SX_THOROUGH ? 3 : 4); unit(); PEnv E; linear<PlanTableSmallOrDense>(E); }
// heuristic search over states: optimal when the search is complete and the heuristic admissible
static void set(Env &E, std::vector<const char*> a) { a.insert(a.begin(), "prog"); a.push_back(nullptr); E.C.arg_parser()((int)a.size() - 1, a.data()); }
static void search(const char *expand, const char *heuristic, std::vector<const char*> searches, Kind k, std::vector<const char*> more = {}, unsigned bits = 6) {
    world(SX_THOROUGH ? 4 : 3, 0, SX_THOROUGH ? std::min(bits, 3u) : bits); PEnv E; const char *s = searches[sx_choose(searches.size(), "search")]; std::vector<const char*> a = {"--hs-vertex", "SubproblemsArray", "--hs-expand", expand, "--hs-heuristic", heuristic, "--hs-search", s}; for (auto x : more) a.push_back(x); set(E, a);
    Options::Get().quiet = true; both(E, "HeuristicSearch", k);
}
SX_MAIN(up_zero) { search("BottomUpComplete", "zero", {"AStar", "AStar_with_cbp", "anytimeAStar", "weighted_anytimeAStar", "anytimeAStar_with_cbp", "weighted_anytimeAStar_with_cbp"}, EXACT); }
SX_MAIN(up_zero_bound) { search("BottomUpComplete", "zero", {"AStar_with_cbp", "anytimeAStar_with_cbp", "weighted_anytimeAStar_with_cbp"}, EXACT, {"--hs-init-upper-bound"}, 3); }
SX_MAIN(down_zero) { search("TopDownComplete", "zero", {"AStar", "AStar_with_cbp", "anytimeAStar", "weighted_anytimeAStar"}, EXACT); }
SX_MAIN(down_zero_bound) { search("TopDownComplete", "zero", {"AStar_with_cbp", "anytimeAStar_with_cbp", "weighted_anytimeAStar_with_cbp"}, EXACT, {"--hs-init-upper-bound"}, 3); }
SX_MAIN(down_sum) { search("TopDownComplete", "sum", {"AStar", "AStar_with_cbp", "weighted_AStar", "anytimeAStar"}, EXACT); }
SX_MAIN(up_inexact) { const char *h = sx_choose(2, "h") ? "sum" : "GOO"; search("BottomUpComplete", h, {"AStar", "beam_search", "dynamic_beam_search", "weighted_AStar"}, HEUR); }
SX_MAIN(down_inexact) { const char *h = sx_choose(2, "h") ? "zero" : "GOO"; search("TopDownComplete", h, {"beam_search", "dynamic_beam_search", "anytimeAStar"}, HEUR); }
SX_MAIN(budget) { const char *h = sx_choose(2, "h") ? "zero" : "sum"; const char *b[] = {"0", "1", "2", "3"}; const char *x = b[sx_choose(4, "budget")]; if (sx_choose(2, "dir")) search("BottomUpComplete", h, {"anytimeAStar", "anytimeAStar_with_cbp"}, HEUR, {"--hs-budget", x}); else search("TopDownComplete", h, {"anytimeAStar", "anytimeAStar_with_cbp"}, HEUR, {"--hs-budget", x}); }
SX_MAIN(joins) { // the graph the enumerators see is the one given by the join conditions
    N = 4; PEnv E; bool e[4][4] = {}; std::string q = "SELECT r0.a FROM t AS r0, t AS r1, t AS r2, t AS r3", w;
    for (unsigned i = 0; i < 4; i++) for (unsigned j = i + 1; j < 4; j++) if (sx_bool("e")) { bool f = (i + j) & 1; char c[16] = "r0.a = r0.a"; c[1] += f ? j : i; c[8] += f ? i : j; w += (w.empty() ? " WHERE " : " AND ") + std::string(c); e[i][j] = e[j][i] = true; }
    auto st = E.parse(q + w + ";"); sx_check(bool(st), "accepted"); auto G = QueryGraph::Build(*st); sx_check(G->num_sources() == 4, "all relations");
    const QueryGraph &C = *G; for (unsigned i = 0; i < 4; i++) for (unsigned j = 0; j < 4; j++) sx_check(bool(C.adjacency_matrix()(i, j)) == e[i][j], "adjacent iff joined");
}
