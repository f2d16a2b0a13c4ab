"""What each check runs: harness file, entry points, repository sources linked in, bounds, required reachability."""
PROPS = {}


def prop(id, *runs, **kw):
    PROPS[id] = dict(runs=list(runs), **kw)


def run(h, e, bound, src=(), t=60, **kw):
    return dict(h=h, e=e, bound=bound, src=list(src) if not isinstance(src, str) else src, t=t, **kw)


B = "bitset.cpp"
prop("C11",
     run(B, "algebra", "all pairs of 64-bit sets, all positions"),
     run(B, "update", "all 64-bit sets, all positions, all 64-bit offsets for at()", cover=["thrown"]),
     run(B, "count", "all 64-bit sets, all positions"),
     run(B, "iterate", "one iterator step from every 64-bit position (induction over the iteration)", cover=["empty"]),
     run(B, "subsets", "one enumeration step, all 64-bit sets and subsets"),
     run(B, "gosper_step", "one enumeration step in universes of 1..12 elements", bound_t="universes of 1..24 elements"),
     run(B, "gosper_any", "one enumeration step from every nonempty set of 63 elements"),
     run(B, "enumerate", "complete enumerations of k-subsets of n-sets, n <= 5 at symbolic positions", bound_t="n <= 7", cover=["done"]),
     run(B, "print", "all 64-bit sets"),
     outside="subset enumeration through a mask of more than 7 elements")

F = "fn.cpp"; FS = ["src/util/fn.cpp"]
prop("C20", *[run(F, "pow2_%d" % b, "all %d-bit values" % b, FS) for b in (8, 16, 32, 64)],
     run(F, "round_8", "all pairs of 8-bit values", FS, cover=["rejected"]), run(F, "round_16", "all 16-bit values, factors 1..12", FS, bound_t="factors 1..48"), run(F, "round_top", "32-bit and 64-bit values within 2^12 of the largest, factors 1..16", FS, bound_t="within 2^20, factors 1..64"), run(F, "round_64_small", "64-bit values below 2^22 and within 2^22 above 2^64-2^32, factors 1..16", FS, bound_t="2^28"),
     run(F, "saturate8", "all pairs", FS), run(F, "saturate16_8", "all pairs", FS), run(F, "saturate8_32", "all pairs", FS), run(F, "saturate64", "all 64-bit sums of two and three, 8-bit sums of four", FS), run(F, "saturate_mul", "all 64-bit values times 0..5, 2^32, 2^63; 8-bit triple products with boundary factors", FS),
     run(F, "powi_", "all 32-bit bases, exponents 0..8; all 8-bit signed bases, exponents 0..4", FS), run(F, "setbit_", "all words and positions at four widths", FS),
     *[run(F, "wide%d" % b, "all %d-bit signed and unsigned ranges" % b, FS) for b in (8, 16, 32, 64)],
     run(F, "page", "all 64-bit sizes", FS), run(F, "sequence", "all doubles and floats except NaN", FS), run(F, "chars", "all int values", FS), run(F, "cstrings", "all strings of up to 3 bytes", FS))
prop("C13", run(F, "like_default", "all strings of up to 5 and patterns of up to 4 bytes", FS, bound_t="strings up to 6, patterns up to 5 bytes", cover=["match", "rejected"], t=100), run(F, "like_escape", "the same with another escape character", FS, cover=["match", "rejected"], t=100))
prop("C21", run(F, "escaping", "all byte strings of up to 5 bytes", FS, bound_t="up to 8 bytes"), run(F, "escaping_custom", "all byte strings of up to 3 bytes, all escape and quote characters", FS), run(F, "unescaping", "all byte strings of up to 5 bytes", FS, bound_t="up to 8 bytes", cover=["rejected"]),
     run(F, "replacing", "strings up to 4 bytes; replacement of up to 2 bytes by up to 2", FS), run(F, "tm_roundtrip", "all calendar times in years -9999..9999", FS, t=100))

G = "graph.cpp"; GS = ["src/util/AdjacencyMatrix.cpp"]
def pe(entry, bound, **k): return run("planenum.cpp", entry, bound, "ALL", args=["--fork-select", "2", "--ite-max", "1"], **k)
prop("C09",
     pe("dp3", "DPccp, DPsize, DPsizeOpt, DPsizeSub, DPsub, DPsubOpt over every connected graph of 3 relations; 4-bit cardinality of every set of relations; C_out and a cost function in which the left input matters; both plan tables", bound_t="8-bit cardinalities", t=200),
     pe("dp4", "the same enumerators, 5 shapes of 4 relations, 4-bit cardinalities, both tables", bound_t="every connected graph of 4 relations, 3-bit cardinalities", t=200),
     pe("topdown3", "TDbasic and TDMinCutAGaT, every connected graph of 3 relations, 8-bit cardinalities"), pe("topdown4", "the same, 5 shapes of 4 relations, 4-bit cardinalities", bound_t="every connected graph of 4 relations, 3-bit cardinalities"),
     pe("greedy3", "GOO and TDGOO, every connected graph of 3 relations, 8-bit cardinalities"), pe("greedy4", "the same, 5 shapes of 4 relations, 4-bit cardinalities", bound_t="every connected graph of 4 relations, 3-bit cardinalities"), pe("goo_greedy", "GOO over 5 shapes of 4 relations, distinct 4-bit cardinalities", bound_t="every connected graph of 4 relations"),
     pe("all", "PEall over every connected graph of 3 relations, 4-bit cardinalities, both cost functions", bound_t="8-bit cardinalities", t=120),
     pe("linearized", "IKKBZ and LinearizedDP, every connected graph of 3 relations of one tuple, 8-bit cardinalities of the joins"), pe("linearized4", "the same, 5 shapes of 4 relations, 4-bit cardinalities", bound_t="every connected graph of 4 relations, 3-bit cardinalities"),
     pe("up_zero", "bottom-up heuristic search without a heuristic, 6 search methods, every connected graph of 3 relations, 6-bit cardinalities", bound_t="4 relations, 3 bits"), pe("up_zero_bound", "the same with an initial upper bound, 3-bit cardinalities", bound_t="4 relations"), pe("down_zero", "top-down, 4 methods", bound_t="4 relations, 3 bits"), pe("down_zero_bound", "the same with an initial upper bound, 3-bit cardinalities", bound_t="4 relations"), pe("down_sum", "top-down with the admissible sum heuristic, 4 methods", bound_t="4 relations, 3 bits"),
     pe("up_inexact", "bottom-up with the sum and GOO heuristics, 4 methods", bound_t="4 relations, 3 bits"), pe("down_inexact", "top-down beam search and GOO heuristic", bound_t="4 relations, 3 bits"), pe("budget", "anytime search with a budget of 0 to 3 expansions", bound_t="4 relations, 3 bits"),
     pe("joins", "every query graph over 4 relations given by equi-join conditions"),
     outside="more than 4 relations; larger cardinalities; IKKBZ and LinearizedDP over relations of more than one tuple (floating-point division); the heuristics product, scaled_sum, avg_sel and sqrt_sum; C_out is the cost function of the repository that is checked", note="Cardinalities are symbolic, graphs are choices.")

prop("C10",
     run(G, "matrix", "all pairs of positions of a 64-vertex matrix", GS, cover=["rejected"]),
     run(G, "reachability", "all directed graphs (loops allowed) of 3 vertices at the lowest and at the highest positions, all start and restriction sets", GS, bound_t="4 vertices"),
     run(G, "connected", "all undirected graphs of 5 vertices (low and high positions), all subsets", GS, bound_t="6 vertices"),
     run(G, "connected_pair", "all undirected graphs of 5 vertices, all pairs of subsets", GS, bound_t="6 vertices"),
     run(G, "closure_directed", "all directed graphs of 3 vertices, loops allowed", GS, bound_t="4 vertices"),
     run(G, "closure_undirected", "all undirected graphs of 4 vertices, loops allowed", GS, bound_t="5 vertices"),
     run(G, "csg", "all undirected graphs of 4 vertices (low and high positions), all vertex subsets", GS, bound_t="5 vertices"),
     run(G, "csg_source", "all undirected graphs of 3 vertices, all subsets and source sets", GS, bound_t="4 vertices"),
     run(G, "csg_pairs", "all undirected graphs of 4 vertices, three vertex subsets", GS, bound_t="5 vertices"),
     run(G, "min_cut", "all undirected graphs of 4 vertices, all connected subsets", GS, bound_t="5 vertices", cover=["partitioned"]),
     run(G, "spanning_forest", "all undirected graphs of 3 vertices, all 32-bit integral weights", GS, bound_t="4 vertices"),
     run(G, "spanning_tree4", "the complete graph of 4 vertices, all 32-bit integral weights", GS),
     run(G, "spanning_empty", "the graph without vertices", GS),
     run(G, "directed_tree", "all labelled trees of 4 vertices, all roots", GS, bound_t="5 vertices", cover=["tree"]),
     outside="larger graphs; fractional weights")

FU = ["src/util/fn.cpp"]
L = "rwlock.cpp"
prop("C17",
     run(L, "raw2", "all interleavings of every 2 of {reader, writer, upgrader, try-reader, try-writer} at synchronisation points", FU, cover=["readers share", "upgrade refused"]),
     run(L, "raw3", "every 3 of {reader, writer, upgrader}", FU, bound_t="every 3 of the five roles", cover=["readers share", "upgrade refused"]),
     run(L, "guards2", "every 2 of {reader, writer, retrying upgrader} through reader_writer_lock", FU, cover=["readers share"]),
     run(L, "guards3", "every 3 with at most two upgraders through reader_writer_lock", FU, bound_t="every 3", t=200, cover=["readers share"]),
     run(L, "scoped2", "every 2 through read_lock, write_lock, upgrade_lock", FU, cover=["readers share"]),
     run(L, "scoped3", "every 3 with at most two upgraders through read_lock, write_lock, upgrade_lock", FU, bound_t="every 3", t=200, cover=["readers share"]),
     run(L, "raw4", "every 4 of {reader, writer, upgrader}", FU, t=300, cover=["readers share", "upgrade refused"], thorough_only=True),
     run(L, "guard_moves", "moves and assignments of two guards in every combination of states", FU),
     run(L, "scoped_moves", "moves and assignments of two guards in every combination of states", FU),
     outside="more threads; preemption between synchronisation operations; spurious wake-ups; weak memory")
S = "sorting.cpp"
NT = ["--ite-max", "1", "--max-steps", "300000"]   # symbolic positions fork; a path this long does not terminate
prop("C19",
     run(S, "partition_u8", "all sequences of up to 8 8-bit values, all pivots", FU, bound_t="10 values", t=200, args=NT),
     run(S, "partition_i32", "all sequences of up to 4 32-bit values, all pivots", FU, bound_t="5 values", t=200, args=NT, targs=["--rlimit", "400000000"]),
     run(S, "partition_u64", "all sequences of up to 4 64-bit values, all pivots", FU, bound_t="5 values", t=200, args=NT, targs=["--rlimit", "400000000"]),
     run(S, "sort_u8", "all sequences of up to 6 8-bit values", FU, bound_t="7 values", t=400, args=NT),
     run(S, "sort_i64", "all sequences of up to 5 64-bit values", FU, bound_t="6 values", t=200, args=NT),
     run(S, "sort_pointers", "all sequences of 4 32-bit values", FU, args=NT),
     run(S, "sort_equal", "all 0/1 sequences of 10 values", FU, bound_t="14 values", t=300, args=NT),
     outside="longer sequences; other partitioning policies")
H = "hashmap.cpp"
prop("C23",
     run(H, "with_duplicates", "histories of up to 3 insertions with duplicates over all 32-bit keys and hash classes", FU, bound_t="4 insertions", t=200),
     run(H, "without_duplicates", "histories of up to 3 insertions without duplicates", FU, bound_t="4 insertions", t=200, cover=["duplicate"]),
     run(H, "mixed", "histories of up to 3 insertions of both kinds", FU, bound_t="4 insertions", t=300, cover=["duplicate"]),
     run(H, "resizing", "insertions around an explicit resize or rehash", FU, t=200, cover=["duplicate"]),
     run(H, "bucket", "lookups and bucket iteration after insertions", FU, t=100), run(H, "growth", "growth across capacities", FU), run(H, "lifetime", "entries owning memory", FU),
     outside="longer histories; copying the table; a maximal load factor of zero")
D = "lists.cpp"
prop("C24",
     run(D, "list_history", "all histories of 3 list operations over all element values", FU, bound_t="4 operations"), run(D, "list_from3", "2 operations on every list of 3, straight and reversed", FU), run(D, "list_copies", "copies, moves, swaps of lists of up to 3 and 2 elements", FU), run(D, "list_owning", "lists of up to 3 elements owning memory", FU), run(D, "list_iterators", "4 iterator steps from every position of lists of up to 4", FU),
     run(D, "sorted_ascending", "sorted vectors of up to 4 insertions, all values", FU, bound_t="5 insertions", t=100), run(D, "sorted_descending", "the same with another order", FU, bound_t="5 insertions", t=100), run(D, "sorted_range", "range insertion of up to 3", FU),
     run(D, "array", "fixed-size arrays of up to 4 elements, all values and positions", FU, cover=["rejected"]), run(D, "array_owning", "arrays of owning elements", FU), run(D, "views", "ranges and views over up to 4 elements", FU),
     outside="longer histories; iterators kept across insertions next to them (the list does not promise them)")
A = "allocator.cpp"
prop("C25",
     run(A, "history", "all histories of 4 allocations (9 sizes up to two pages) and deallocations, then release in two orders", FU, bound_t="5 operations, 13 sizes", t=300),
     run(A, "history_aligned", "all histories of 3 operations with alignments up to two pages", FU, bound_t="4 operations, alignments up to four pages", t=300),
     run(A, "history_kinds", "histories of 3 operations on differently configured allocators", FU, t=100),
     run(A, "fragment", "every subset of five neighbouring blocks freed and reused", FU, t=100), run(A, "coalesced", "release of up to 4 blocks", FU),
     run(A, "symbolic_sizes", "three blocks, all sizes 1..40", FU, bound_t="all sizes 1..72", t=300), run(A, "symbolic_large", "all sizes around one and two pages next to all sizes 1..24", FU, t=100),
     run(A, "moves", "moves, swaps, copies of allocators with live blocks", FU, t=100), run(A, "typed", "the typed interface", FU), run(A, "from_malloc", "all sizes 1..40, alignments up to a page", FU),
     outside="longer histories; failing mmap; mmap and munmap are replaced by an arena of 48 pages that hands out the highest free run")
O = "pool.cpp"
prop("C26",
     run(O, "int_history", "all histories of 4 operations on handles over all 32-bit values", FU, bound_t="5 operations", t=400), run(O, "int_history_safe", "3 operations on the thread-safe pool", FU, bound_t="4 operations", t=100), run(O, "optional_none", "optional handles", FU),
     run(O, "strings", "up to 3 strings of up to 2 bytes", FU), run(O, "polymorphic", "two types, all 32-bit values", FU), run(O, "polymorphic_safe", "the same on the thread-safe pool", FU),
     run(O, "threads2", "all interleavings of two threads pooling equal or different values, switching inside hashing and comparison", FU, t=100),
     outside="longer histories; more threads; weak memory")
TU = ["src/util/fn.cpp", "src/IR/Tuple.cpp", "src/catalog/Type.cpp"]
U = "tuple.cpp"
prop("C22",
     run(U, "history_ints", "all histories of 3 updates of tuples of integer attributes, all values and NULL patterns", TU), run(U, "history_strings", "the same with strings", TU), run(U, "history_others", "the same with each other type", TU), run(U, "from_types", "tuples of two attributes of every pair of types", TU),
     run(U, "equality", "pairs of two-attribute tuples, all values and NULL patterns", TU), run(U, "insertion", "one tuple placed inside another at every position", TU), run(U, "swapping", "swaps of tuples of different shapes", TU), run(U, "values", "conversions of single values", TU),
     outside="more than three attributes; equality of string values (tuples compare strings by address)")
TY = ["src/util/fn.cpp", "src/catalog/Type.cpp"]
Y = "types.cpp"
prop("C12",
     run(Y, "pairs_text", "all pairs of non-decimal types and all pairs with decimals of up to 3 digits, all 8-bit lengths", TY, bound_t="12-bit lengths", t=100, cover=["equal types"]), run(Y, "pairs_numeric", "all pairs of numeric types (integers, float, double, decimals of 1..19 digits with three scales)", TY, cover=["equal types"]),
     run(Y, "predicates", "every type, all 8-bit lengths", TY, bound_t="12-bit lengths"), run(Y, "joins", "all pairs of numeric types", TY), run(Y, "join3", "all triples of vectorial numeric types with up to 3 digits", TY, bound_t="all triples with up to 3 digits"),
     run(Y, "printing", "every type, lengths from a list", TY), run(Y, "functions", "all pairs of signatures of up to 2 parameters", TY, bound_t="3 parameters", cover=["equal types"]), run(Y, "runtime_types", "host types", TY),
     outside="longer lengths; nested function types")
CT = "src/catalog/Catalog.cpp,src/catalog/Schema.cpp,src/catalog/Type.cpp,src/catalog/TableFactory.cpp,src/catalog/CardinalityEstimator.cpp,src/catalog/DatabaseCommand.cpp,src/util/fn.cpp,src/util/memory.cpp,src/util/ArgParser.cpp,src/Options.cpp,src/storage/DataLayoutFactory.cpp,src/storage/DataLayout.cpp,src/storage/RowStore.cpp,src/storage/PaxStore.cpp,src/storage/Store.cpp".split(",")
K = "catalog.cpp"
prop("C14",
     run(K, "schema_lookup", "schemas of up to 3 entries over 5 identifiers, every constraint set, every query", CT, bound_t="4 entries", cover=["ambiguous"]), run(K, "schema_reduce", "schemas of up to 3 entries", CT), run(K, "schema_pairs", "pairs of schemas of up to 2 entries", CT), run(K, "schema_mismatch", "common entries of equal and different type", CT), run(K, "identifiers", "all pairs of identifiers", CT),
     run(K, "table", "all histories of 3 table operations", CT, bound_t="4 operations", cover=["duplicate"]), run(K, "table3", "histories of 2 operations on tables of three attributes, hidden or not", CT, bound_t="3 operations", cover=["duplicate"]), run(K, "table_scalar", "rejected attributes", CT), run(K, "versioned", "multi-versioned tables", CT),
     run(K, "database", "all histories of 3 operations on tables and indexes", CT, t=200, cover=["duplicate"]), run(K, "indexes", "histories of index operations on two tables", CT, t=100), run(K, "databases", "all histories of 4 operations on databases", CT, bound_t="5 operations", cover=["duplicate"]), run(K, "functions", "the standard functions", CT), run(K, "components", "components of the catalog", CT),
     run(K, "commands", "all histories of 3 data-definition commands", CT, bound_t="4 commands", t=200, cover=["duplicate"]),
     outside="longer histories; more names; dropping a table another table refers to")
AS = "src/parse/AST.cpp,src/parse/ASTPrinter.cpp,src/parse/ASTDumper.cpp,src/lex/Token.cpp,src/util/Position.cpp".split(",")
N = "cnf.cpp"; NS = ["src/IR/CNF.cpp"] + AS + CT
prop("C08",
     run(N, "convert2", "all expressions of depth 2 over NOT, AND, OR, =, all Kleene assignments", NS, bound_t="also !=", cover=["conjunction", "single clause"]),
     run(N, "convert3", "all expressions of depth 3 over NOT, AND, OR, all Kleene assignments", NS, t=100, cover=["conjunction", "single clause"]), run(N, "convert_spine", "an equivalence below 3 operators", NS, bound_t="below 4 operators", t=200),
     run(N, "comparisons", "comparisons as literals", NS), run(N, "algebra", "pairs of formulae of up to 2 clauses of up to 2 literals, all Kleene assignments", NS, bound_t="3 clauses", t=100), run(N, "clauses", "pairs of clauses of up to 3 and 2 literals", NS, bound_t="3 and 3 literals", t=200), run(N, "predicates", "all pairs of literals", NS),
     outside="deeper expressions; formulae without clauses (the empty formula stands for a missing condition)")
X = "lexer.cpp"; XS = ["src/lex/Lexer.cpp", "src/lex/Token.cpp", "src/util/fn.cpp", "src/util/Position.cpp"]
HASH = ["--stub", "_ZN1m5FNV1aEPKc=sx_stub_hash", "--stub", "_ZN1m5FNV1aEPKcm=sx_stub_hashn"]
prop("C05",
     run(X, "bytes", "all inputs of up to 4 bytes other than NUL", XS, bound_t="up to 5 bytes", t=60, args=HASH, cover=["error"]),
     run(X, "numbers", "all inputs of up to 6 of the characters that occur in numbers", XS, bound_t="up to 7", args=HASH, cover=["error"]),
     run(X, "literals", "string literals of up to 6 further characters: quotes, backslashes, escapes, newlines, bytes above 127", XS, bound_t="7", args=HASH, cover=["error"]),
     run(X, "comments", "up to 7 blanks, dashes, newlines and equals signs", XS, bound_t="8", args=HASH),
     run(X, "dates", "the four forms with all digits, with any one character replaced, removed, inserted, or cut short", XS, args=HASH, cover=["error"]),
     run(X, "words", "every keyword, with any one character replaced, removed or inserted", XS, args=HASH, cover=["error"]),
     run(X, "instructions", "instructions of up to 5 further characters", XS, args=HASH), run(X, "two_way", "up to 4 characters from a stream opened for reading and writing", XS, args=HASH),
     run(X, "nul_bytes", "up to 5 characters, one of them NUL", XS, args=HASH),
     outside="longer inputs; the string pool's hash function is replaced by the string's length (C26 covers the pool)")
E1 = "expr.cpp"
prop("C01",
     run(E1, "ints", "arithmetic on all 64-bit operands (+, -, ~), products, quotients and remainders of all 8-bit operands; mixed widths; each operand possibly NULL", "ALL", cover=["null", "value"]),
     run(E1, "comparisons", "every comparison of all 64-bit integers, booleans and dates, NULL included", "ALL", cover=["null", "value"]), run(E1, "logic", "AND, OR, NOT, ISNULL in several nestings, all Kleene values", "ALL", cover=["null", "value"]),
     run(E1, "strings", "comparisons and concatenations of all strings of up to 3 bytes, comparisons with NULL", "ALL", cover=["null", "value"]), run(E1, "floats", "arithmetic and comparisons on all float and double values and mixtures with integers", "ALL", cover=["null", "value"]),
     run(E1, "decimals", "sums, differences, products and comparisons of decimals (below 10^8) of two and three places and integers", "ALL", cover=["null", "value"]), run(E1, "decimal_quotients", "quotients and remainders of decimals", "ALL", cover=["null", "value"]),
     run(E1, "casts", "16 conversions of all 32-bit integers, floats, doubles, decimals and booleans", "ALL", cover=["null", "value"]), run(E1, "nested", "13 expressions with several operators", "ALL", cover=["null", "value"]),
     outside="operations without a value in SQL (division by zero, overflow); concatenation with NULL, which the interpreter documents as the other operand; LIKE (C13); the JIT-compiling backend, which is not part of this build")
LY = "layout.cpp"
prop("C04",
     run(LY, "row", "row layouts of up to 3 attributes over booleans, integers of all widths and character types of every length up to 4000", CT, bound_t="4 attributes, also FLOAT and DOUBLE", t=100, cover=["single row"]), run(LY, "row_types", "row layouts of up to 2 attributes of every type, every decimal precision", CT),
     run(LY, "pax_tuples", "PAX layouts of 1, 2, 7, 16 and 17 tuples per block, up to 2 attributes, character types of every length up to 127; all pairs of rows", CT, bound_t="also 33, 40, 100 tuples", t=150, cover=["many rows", "single row"]), run(LY, "pax_types", "PAX layouts of 3 and 16 tuples, every pair of types, character lengths up to 15", CT, bound_t="also 128 tuples", t=150),
     run(LY, "pax_bytes", "PAX layouts with blocks of 64 and 4096 bytes, up to 2 attributes, character lengths up to 15", CT, bound_t="lengths up to 127", t=150, cover=["many rows"]), run(LY, "pax_wide", "8 attributes with 8 NULL bits", CT),
     outside="longer schemas; the options that switch off attribute reordering or the NULL bitmap")
ST = "store.cpp"
prop("C03",
     run(ST, "types", "schemas of an attribute of any of 12 types (every value, strings of every length) next to a boolean, nullable or not; row layout and PAX blocks of 1, 2, 9, 16 tuples and of 64 bytes; 3 rows", "ALL", cover=["read"]), run(ST, "positions", "2 to 11 rows written in two steps cut anywhere and read from any row", "ALL", bound_t="up to 18 rows", t=100, cover=["read"]),
     run(ST, "overwrite", "4 rows, any one of them overwritten", "ALL", cover=["read"]), run(ST, "projections", "every subset of 4 attributes in every order, 3 rows", "ALL", t=120, cover=["read"]), run(ST, "wide", "10 attributes, NULL in any one or two of them", "ALL", cover=["read"]),
     outside="more rows; other schemas; stores other than memory (the stores reserve address space and are exercised through C02)")
QY = "query.cpp"
VH = ["--stub", "_ZNKSt4hashIN1m5ValueEEclES1_=sx_stub_value_hash"]
def q(entry, bound, **k): return run(QY, entry, bound, "ALL", args=VH, **k)
prop("C02",
     q("filter", "a table of 2 rows of two attributes, each NULL or any 8-bit value; row and PAX layouts; every predicate of a list", cover=["rows", "no rows"]), q("project", "8 projections over 2 such rows"), q("join", "joins of 2 rows with 0, 1 or 2 rows under 9 conditions (equi-joins, inequalities, conjunctions, disjunctions, negations)", bound_t="also 3 rows", t=100), q("selfjoin", "a table of 2 rows joined with itself"),
     q("join3", "joins of three tables (1, 2 and 1 rows) under 4 conditions and 9 plan enumerators"), q("group", "3 rows, 4 grouping queries with COUNT, SUM, MIN, MAX, HAVING"), q("aggregate", "up to 3 rows, aggregates without grouping"), q("average", "AVG over up to 3 values of 0..5 or NULL", t=100), q("order", "3 rows, 6 ORDER BY queries"), q("limit", "3 rows, every LIMIT 0..4 with OFFSET 0..4, ordered or not"),
     q("nested", "6 queries over tables given by nested queries"), q("keys_join", "equi-joins over keys of 7 types"), q("keys_group", "grouping by keys of 7 types"), q("keys_order", "ordering by keys of 7 types"), q("keys_filter", "comparisons of attributes of 5 types"), q("mixed_join", "equi-joins of different types"), q("sums", "SUM, MIN and MAX of FLOAT, DOUBLE, DECIMAL and INT(1), grouped or not"),
     q("blocks", "63 to 130 rows, one of them with any value: filter, sort, group, aggregate, LIMIT"), q("wide_join", "31 to 130 rows joined with 2"), q("combined", "join with grouping, HAVING, ordering and LIMIT"), q("repeated", "a query before and after another one"),
     q("cross", "a query without a join condition", finding="F31"), q("key_aggregate", "an aggregate of the grouping key", finding="F32"), q("subquery", "scalar nested queries", finding="F33"),
     outside="more rows, attributes and tables than stated (rows beyond the symbolic ones are fixed); statements outside the listed families; the JIT-compiling backend, which is not part of this build", note="Hash values of keys are replaced by a constant, so that every pair of keys collides.")

PH = "parse.cpp"; JB = ("--jobs", "8")
def g(entry, bound, **k): return run(PH, entry, bound, "ALL", **k)
prop("C06",
     g("tokens", "every sequence of up to 3 tokens of any type", bound_t="every sequence of up to 5", cover=["accepted", "rejected"]), g("erroneous", "every sequence of up to 3 tokens, erroneous ones included", bound_t="up to 5", cover=["done"]), g("expressions", "SELECT and every sequence of up to 4 tokens that occur in expressions", bound_t="up to 5", t=200, cover=["accepted", "rejected", "printed"]),
     g("operators_tree", "3 operands joined by any operators, with any unary operators and any pair of parentheses: the tree", bound_t="4 operands", t=150), g("operators_text", "2 operands joined by any operators: the tree, and the text printed and parsed again"), g("statements", "34 statements covering the grammar, with constants of every kind", cover=["printed"]),
     g("altered_definitions", "14 definition statements with any one token replaced, inserted or removed", bound_t="two adjacent tokens", cover=["accepted", "rejected", "printed"]), g("altered_changes", "9 statements that change data, altered likewise", bound_t="two adjacent tokens", cover=["accepted", "rejected", "printed"]), g("altered_queries", "11 queries, altered likewise", bound_t="two adjacent tokens", cover=["accepted", "rejected", "printed"]), g("instructions", "instructions of up to 4 characters of a list", cover=["instruction"]),
     g("import_text", "ESCAPE and QUOTE of an IMPORT, printed and parsed again", finding="F34"),
     outside="longer token sequences and deeper nesting than stated", note="Token types are symbolic and the reference parser decides on the same symbols. The statements are judged for every token type; texts of tokens are fixed per position. The decisions are made by the engine's exact tracking of the values a byte can have; conditions it cannot settle go to the solver.")

def sm(entry, bound, **k): return run("sema.cpp", entry, bound, "ALL", args=HASH, **k)
AR = ["accepted", "rejected"]
prop("C07",
     sm("operators", "any binary operator over any two of 12 attributes of every type and 9 constants, NULL and an unknown name", cover=AR), sm("strings", "one or two binary operators over CHAR attributes of any length up to 256 and string constants", cover=AR), sm("nested", "any two operators, one of them binary, over 7 kinds of operands", cover=AR), sm("unaries", "one or two unary operators over 21 operands", cover=AR), sm("functions", "7 functions over up to two arguments of 21 kinds", cover=AR), sm("callees", "7 expressions called as functions"), sm("aggregates", "15 expressions with aggregates in 5 places", cover=AR),
     sm("dates", "dates and datetimes with any digits in the year, in the month and day, or in the time", cover=AR), sm("integers", "integer constants of three bases with up to four digits of any value behind 8 prefixes", cover=["32 bits", "64 bits"]), sm("names", "every name of 5 qualifiers and 6 attributes over one or two of 9 sources, in 4 clauses", cover=AR), sm("where", "14 conditions", cover=AR), sm("clauses", "queries composed of 14 items, 10 groupings, 14 conditions of HAVING or 14 keys of ORDER BY, with and without aliases", bound_t="HAVING and ORDER BY together", t=150, cover=AR), sm("items", "2 or 3 items out of 10, grouped or not", cover=AR),
     sm("commands", "116 statements of every kind against a catalog with tables, an index and databases", cover=AR), sm("no_database", "18 statements without a database", cover=AR), sm("indexes", "index methods over attributes of every type", cover=AR), sm("inserts", "a value of 8 kinds for an attribute of 12 types, NOT NULL or not", cover=AR),
     outside="deeper expressions, more sources and clauses combined than stated; whether an integer constant exceeds 64 bits; the leap-year rule (29 February is accepted in every year, which a unit test pins); correlated nested queries", note="Operators and digits are symbolic; operands, names and clauses are choices, one path each.")
def cs(entry, bound, **k): return run("csv.cpp", entry, bound, "ALL", args=HASH, **k)
prop("C15",
     cs("boolean", "a BOOL column, any 3 bytes behind 4 beginnings", bound_t="any 4 bytes", cover=["row", "error"]), cs("small", "an INT(1) or INT(2) column, any text of up to 4 bytes", bound_t="5 bytes", cover=["row", "rows", "error"]), cs("large", "an INT(8) or INT(2) column, up to 3 bytes behind 5 numbers at the limits of the types", cover=["row", "error"]),
     cs("decimal", "a DECIMAL(2,1) column, any text of up to 4 bytes", bound_t="5 bytes", cover=["row", "error"]), cs("precise", "a DECIMAL(18,2) column, up to 3 bytes behind 5 numbers, some at the limits of the type", cover=["row", "error"]),
     cs("string", "a CHAR column, any text of up to 4 bytes, default settings, RFC 4180, and a delimiter and an escape above 127", bound_t="5 bytes", cover=["row", "error"]), cs("dates", "a DATE column, dates with and without quotes, two characters replaced, one inserted, or cut short", cover=["row", "error"]),
     cs("columns", "two columns (number and string, string and number, two strings), any text of up to 4 bytes, default settings and RFC 4180", bound_t="5 bytes", cover=["row", "error"]), cs("records", "a number and a string, all texts of up to 6 digits, commas, line ends, quotes and letters", bound_t="up to 7", cover=["rows", "error"]), cs("limit", "at most 0 to 3 rows, texts of up to 6 digits, commas and line ends", bound_t="up to 7", cover=["rows"]),
     cs("header", "6 headlines that name, reorder, omit or add columns, any text of up to 4 bytes below", bound_t="5 bytes", cover=["row", "error"]), cs("skipped", "a skipped headline of up to 2 bytes, any 3 bytes below", bound_t="4 bytes", cover=["row"]),
     outside="longer texts; NUL bytes; floating-point columns (strtod and its error numbers are not modelled); DATETIME; dates that are no days, years before 0, text behind a date or behind a closing quote (discarded without notice); strings longer than their column; tables whose layout changes during the import; timestamps of multi-versioned tables; files (the text comes from a string stream)", note="Bytes are symbolic; the oracle splits the text into records on the same symbols.")
IX = "index.cpp"
def ix(entry, bound, **k): return run(IX, entry, bound, "ALL", args=HASH, **k)
prop("C16",
     ix("array_i8", "up to 5 keys, all 8-bit values, all search keys", bound_t="6 keys", cover=["looked up"]), ix("array_i16", "up to 4 keys, all 16-bit values", cover=["looked up"]), ix("array_i32", "up to 4 keys, all 32-bit values", bound_t="5 keys", t=100), ix("array_i64", "up to 4 keys, all 64-bit values", t=100),
     ix("array_bool", "up to 3 Boolean keys"), ix("array_float", "up to 3 numbers, all single-precision values", bound_t="4 numbers"), ix("array_double", "up to 3 numbers, all double-precision values", bound_t="4 numbers", t=100), ix("array_string", "2 strings of up to 2 bytes", bound_t="3 strings", t=100),
     ix("refill", "entries added before and after finalizing, all 8-bit keys", cover=["refilled"]), ix("capacity", "memory for 0 to 3 entries, all 32-bit keys", cover=["full"]),
     ix("rmi_any_prediction_i8", "up to 5 sorted keys, all 8-bit values, whatever position the model predicts", bound_t="7 keys", t=200), ix("rmi_any_prediction_i32", "up to 5 sorted keys, all 32-bit values, any predicted position", bound_t="7 keys", t=200), ix("rmi_any_prediction_i64", "up to 5 sorted keys, all 64-bit values, any predicted position", bound_t="6 keys", t=200),
     ix("rmi_trained_i8", "5 key sets of up to 12 keys with outliers and duplicates, 4 ratios of models, all 256 search keys", cover=["trained"]), ix("rmi_trained_i16", "4 key sets, search keys around each key"), ix("rmi_trained_i32", "4 key sets, search keys around each key"), ix("rmi_trained_i64", "4 key sets up to the limits of the type, search keys around each key"),
     ix("rmi_trained_float", "5 key sets with denormal, huge and infinite numbers"), ix("rmi_trained_double", "5 key sets with denormal, huge and infinite numbers", cover=["trained"]), ix("rmi_empty", "no key"), ix("rmi_small", "up to 2 keys of 0..15, search keys -2..17", cover=["small"]),
     *[ix("bulk_" + t, "up to 2 rows, each NULL or any key", cover=["loaded"]) for t in "bool i8 i16 i32 i64 decimal date datetime float double".split()],
     ix("bulk_char", "up to 2 rows of 4 texts"), ix("bulk_varchar", "up to 2 rows of 4 texts"), ix("bulk_rmi", "up to 2 rows of 3 keys"), ix("bulk_types", "every column type against every key type", cover=["refused", "accepted"]), ix("bulk_schema", "schemas of none and two attributes"),
     outside="larger indexes; symbolic keys during the training of models (floating-point regression): training runs on stated key sets, while the search is decided for every position a model can predict; keys that are not a number; indexes used by Wasm scans")
AR = "args.cpp"
AS_ = ["src/util/ArgParser.cpp", "src/util/fn.cpp"]
def ar(entry, bound, **k): return run(AR, entry, bound, AS_, args=HASH, **k)
prop("C28",
     ar("vectors", "all vectors of up to 3 of 16 arguments and of 4 of 13", bound_t="5 arguments", cover=["parsed", "refused"], t=100), ar("any_name", "all arguments of up to 4 bytes before a positional argument", bound_t="5 bytes"), ar("any_long_name", "all arguments of -- and up to 4 bytes"),
     ar("any_int", "all texts of up to 4 bytes as the value of an integer option", bound_t="5 bytes", cover=["parsed", "refused"]), ar("any_list", "all texts of up to 4 bytes as a list", bound_t="5 bytes"), ar("any_string", "all texts of up to 3 bytes as a string", bound_t="4 bytes"), ar("missing", "each option without its value", cover=["refused"]),
     *[ar("number_" + t, "all texts of up to %d bytes, numbers around the limits of the type" % (3 if t == "int" else 2), bound_t="%d bytes" % (4 if t == "int" else 3), cover=["converted", "refused"]) for t in "int long long_long unsigned unsigned_long unsigned_long_long".split()],
     ar("real_float", "13 texts"), ar("real_double", "13 texts", cover=["converted", "refused"]),
     outside="longer vectors and texts; leading white space of numbers; minus zero for unsigned types; arbitrary floating-point texts (13 stated ones), long double; the end of the process on refusal is observed at exit()")
SD = "scheduler.cpp"
prop("C18",
     run(SD, "history", "all histories of 6 operations (submissions of three transactions, hand-outs, ends of transactions, closing)", "ALL", bound_t="7 operations", t=200, cover=["handed out", "dropped", "nothing"]),
     run(SD, "threads1x2", "one transaction of two commands and the worker, all schedules", "ALL", cover=["all handed out"]), run(SD, "threads2x1", "two transactions of a command each and the worker, all schedules", "ALL", cover=["all handed out"]),
     run(SD, "closing1x2", "one transaction of two commands, the worker and a closing thread, all schedules", "ALL", t=100), run(SD, "closing2x1", "two transactions of a command each, the worker and a closing thread, all schedules", "ALL", t=100),
     outside="longer histories; executing the commands (the worker here takes them from the queue and answers them); committing a transaction none of whose commands has started; preemption between synchronisation operations; weak memory")
NOT_APPLICABLE = {
    "C27": "no check was built in the time available: cost minimality of operator matching needs the floating-point cost models of all operator combinations; the results of the plans chosen are covered by C02, the enumeration by C09",
    "C29": "the WebAssembly backend needs V8, which is neither part of the build here nor available offline: the code cannot be compiled, hence not encoded",
    "C30": "learning sum-product networks is iterative floating-point clustering over Eigen matrices; its loops depend on every input value and are out of reach of bit-precise floating-point solving",
    "C31": "no check was built in the time available: the estimators multiply and divide symbolic 64-bit cardinalities as doubles, terms the solver does not decide within the limits used here; C09 runs the real estimator only on cardinalities whose products stay exact",
}
