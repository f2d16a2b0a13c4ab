#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script only because JSON lines are tedious to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Interpreted SQL expressions follow SQL's typed three-valued semantics",
  "For every operand value, including NULL, an SQL expression evaluated by the interpreter yields the value SQL defines for it: arithmetic in the expression's own type, comparisons that are NULL when an operand is NULL, Kleene logic for AND/OR/NOT, ISNULL, string comparison and concatenation of non-NULL strings, and conversions between numeric types. Operations for which SQL defines no value (division by zero, arithmetic overflow) are outside this property. Evaluation never reads outside its operands and never aborts.",
  ["inputs"], "all operand values of every numeric/boolean/string/date type, each operand possibly NULL",
  "Unit tests evaluate single literal operands per operator; NULL combinations, extreme integers and mixed widths are not enumerated.",
  ["src/backend/StackMachine.cpp", "src/tables/Opcodes.tbl", "src/backend/Interpreter.cpp"],
  [("expression compiler and opcode interpreter", "src/backend/StackMachine.cpp")])
p("C02", "A query's result is the one relational algebra defines for the stored rows",
  "For every content of the referenced tables, the rows a query returns through the interpreter are exactly the rows (with multiplicities) that selection, projection, join, grouping with aggregates, ordering and LIMIT/OFFSET define over those contents; rows are in the requested order when ORDER BY is given. The answer does not depend on the data layout or on the join algorithm chosen.",
  ["inputs", "configurations"], "all values in small tables, NULLs included, over a family of query shapes and layouts",
  "Tests run a handful of queries over fixed tables.",
  ["src/backend/Interpreter.cpp", "src/backend/InterpreterOperator.cpp", "src/IR/Optimizer.cpp", "src/IR/Operator.cpp"],
  [("operator pipelines", "src/backend/Interpreter.cpp"), ("logical planning", "src/IR/Optimizer.cpp")])
p("C03", "Tuples written to a table's storage are read back unchanged",
  "For every schema and every tuple that fits it, writing tuples through a table's data layout and reading them back yields the same values and the same NULLs for every row and attribute, and writing one row leaves all others as they were.",
  ["inputs", "configurations"], "all attribute values and NULL patterns, over schemas of mixed types and over row and PAX layouts",
  "Tests fill a few stores with constant rows and compare a sample.",
  ["src/storage/DataLayoutFactory.cpp", "src/backend/Interpreter.cpp", "src/storage/DataLayout.cpp"],
  [("load/store code generated from a data layout", "src/backend/Interpreter.cpp"), ("layout construction", "src/storage/DataLayoutFactory.cpp")])
p("C04", "Data layouts give every value its own, aligned place inside its block",
  "For every schema, a row-oriented or PAX data layout assigns each attribute of each row (and its NULL bit) a bit range that overlaps no other row's or attribute's range, is aligned as the attribute's type demands, and lies inside the space the layout declares.",
  ["inputs", "configurations"], "all sequences of attribute types up to a stated length, all row counts per block",
  "Tests check a few hand-written schemas.",
  ["src/storage/DataLayoutFactory.cpp", "src/storage/DataLayout.cpp", "include/mutable/storage/DataLayout.hpp"],
  [("RowLayoutFactory, PAXLayoutFactory", "src/storage/DataLayoutFactory.cpp")])
p("C05", "Lexing is total and loses nothing of the input",
  "For every sequence of input bytes the lexer terminates without memory errors, and returns tokens whose texts are, in order, exactly the input's non-blank, non-comment text at the reported line and column, each classified as the lexical grammar says; text outside the grammar is reported as a diagnostic or error token.",
  ["inputs"], "all byte strings up to a stated length",
  "Tests lex a fixed list of tokens.",
  ["src/lex/Lexer.cpp", "src/lex/Lexer.hpp"],
  [("longest-match lexer", "src/lex/Lexer.cpp")])
p("C06", "Parsing is total, and a printed statement parses back to itself",
  "For every sequence of tokens the parser terminates and either reports an error or returns a syntax tree; a tree it returns without an error, printed as SQL and parsed again, prints the same text and has the same structure, with operators grouped by their precedence and associativity.",
  ["inputs", "programs"], "all token sequences up to a stated length from the SQL vocabulary",
  "Tests parse individual statements.",
  ["src/parse/Parser.cpp", "src/parse/ASTPrinter.cpp", "include/mutable/parse/AST.hpp"],
  [("recursive-descent parser with error recovery", "src/parse/Parser.cpp"), ("SQL printer", "src/parse/ASTPrinter.cpp")])
p("C07", "Semantic analysis accepts exactly the meaningful statements",
  "For every expression over attributes and constants, semantic analysis reports an error exactly when the operand types do not admit the operator or function, and otherwise assigns the type the typing rules give: boolean for comparisons and logic, the join of the operand types for arithmetic, vectorial as soon as an operand is; names resolve to the one source that has them; the clauses of a query obey the rules of grouping; definitions and changes fit the catalog. It terminates with a command or an error, never neither and never both.",
  ["inputs", "programs"], "all operator/operand-type combinations, digits of constants and combinations of clauses within bounds",
  "Tests list a few combinations.",
  ["src/parse/Sema.cpp", "src/catalog/Type.cpp"],
  [("expression typing", "src/parse/Sema.cpp"), ("arithmetic join of types", "src/catalog/Type.cpp")])
p("C08", "Conversion to conjunctive normal form preserves meaning",
  "For every boolean expression, its conjunctive normal form evaluates to the same truth value under every assignment of its predicates, and conjunction, disjunction and negation of normal forms denote conjunction, disjunction and negation.",
  ["inputs", "programs"], "all boolean expressions up to a stated depth and all assignments",
  "Tests compare printed forms of a few formulae.",
  ["src/IR/CNF.cpp", "include/mutable/IR/CNF.hpp"],
  [("CNF generation and operators", "src/IR/CNF.cpp")])
p("C09", "Exact plan enumeration finds a cheapest complete join order",
  "For every connected query graph and every cardinality model, each exact plan enumerator fills the plan table with a plan that joins every relation exactly once, without cross products, at the minimum cost over all such plans; all exact enumerators report the same cost. The bottom-up dynamic programming ones do so for every connected subset of the relations. PEall does so over all plans including those with cross products. Heuristic search is exact when the search is complete and the heuristic admissible. The other enumerators (GOO, TDGOO, IKKBZ, LinearizedDP, incomplete searches) fill in a complete plan without cross products whose recorded cost is its cost: GOO joins the pair of least result first, TDGOO splits with the least total size, IKKBZ yields a linear plan and LinearizedDP one no worse.",
  ["inputs", "programs"], "all connected graphs up to a stated number of relations, all cardinalities and costs",
  "Tests compare plan tables for a few fixed graphs with one set of cardinalities.",
  ["src/IR/PlanEnumerator.cpp", "include/mutable/IR/PlanEnumerator.hpp", "include/mutable/IR/PlanTable.hpp", "src/IR/PlanTable.cpp", "src/IR/HeuristicSearchPlanEnumerator.cpp", "include/mutable/IR/HeuristicSearchPlanEnumerator.hpp", "include/mutable/util/HeuristicSearch.hpp"],
  [("DPsize, DPsizeOpt, DPsizeSub, DPsub, DPsubOpt, DPccp, TDbasic, TDMinCutAGaT", "src/IR/PlanEnumerator.cpp"), ("plan table update", "include/mutable/IR/PlanTable.hpp")])
p("C10", "Graph routines agree with the definition of connectivity",
  "For every adjacency matrix, reachability, neighbourhood, connectedness tests, the enumeration of connected subgraphs and of connected-subgraph/complement pairs, and the spanning forest/tree routines return exactly what the graph's definition implies: every qualifying subset or pair once, and nothing else.",
  ["inputs"], "all graphs up to a stated number of vertices, all start sets",
  "Tests use about ten fixed graphs.",
  ["include/mutable/util/AdjacencyMatrix.hpp", "src/util/AdjacencyMatrix.cpp", "include/mutable/util/MinCutAGaT.hpp"],
  [("bit-set based search", "include/mutable/util/AdjacencyMatrix.hpp")])
p("C11", "Small bit sets behave as mathematical sets",
  "For every pair of sets of at most 64 elements, membership, union, intersection, difference, comparison, size, iteration, subset enumeration and single-bit extraction agree with the mathematical operation on the sets, for every element index in range.",
  ["inputs"], "all 64-bit set values and all element positions",
  "Tests try a few constants.",
  ["include/mutable/util/ADT.hpp"],
  [("SmallBitset and its iterators, GospersHack, SubsetEnumerator", "include/mutable/util/ADT.hpp")])
p("C12", "Types compare equal exactly when they are the same type, with sound sizes",
  "For every pair of SQL types, equality and hashing agree with structural identity (kind, width, precision, category) and equal types are one object; every type's size has room for what its declaration says and its alignment is a power of two; joining numeric types is commutative, associative and yields the least type of the wider kind, width, digits and scale; a printed type spells its declaration.",
  ["inputs"], "all type parameters in range, all pairs of types",
  "Tests list a few parameters.",
  ["src/catalog/Type.cpp", "include/mutable/catalog/Type.hpp"],
  [("pooled type objects", "src/catalog/Type.cpp")])
p("C13", "LIKE accepts exactly the strings its pattern denotes",
  "For every string, every pattern and the escape character, LIKE holds exactly when the string matches the pattern with % standing for any sequence, _ for one character and an escaped character for itself; malformed patterns are rejected with an exception, and no memory outside the operands is read.",
  ["inputs"], "all strings and patterns up to stated lengths",
  "Tests use a table of examples.",
  ["include/mutable/util/fn.hpp", "src/util/fn.cpp"],
  [("pattern matcher", "src/util/fn.cpp")])
p("C14", "Schema and catalog names resolve uniquely",
  "For every sequence of additions, removals and lookups, a database finds exactly the tables, functions and attributes added and not removed under that name, rejects duplicates and unknown names with an exception, keeps the order of attributes, and never disturbs other entries.",
  ["inputs", "histories"], "all histories of a stated length over a small set of names",
  "Tests perform one fixed sequence per function.",
  ["src/catalog/Schema.cpp", "include/mutable/catalog/Schema.hpp", "src/catalog/Catalog.cpp"],
  [("name maps", "include/mutable/catalog/Schema.hpp")])
p("C15", "Delimiter-separated import stores the values the text denotes",
  "For every input text, the importer terminates without memory errors; each well-formed record becomes one row holding the values its fields denote (empty fields as NULL), and malformed fields are diagnosed without corrupting other rows.",
  ["inputs"], "all input texts up to a stated length for schemas of the supported types",
  "Tests import a few fixed files.",
  ["src/io/DSVReader.cpp", "include/mutable/io/Reader.hpp"],
  [("field parsers", "src/io/DSVReader.cpp")])
p("C16", "An index finds exactly the rows whose key lies in the range asked for",
  "For every set of keys, lower- and upper-bound searches on an array or recursive-model index return the positions a linear scan of the sorted keys gives, so that a range lookup returns exactly the rows in range, duplicates included; using an index before it is finalized is rejected.",
  ["inputs", "histories"], "all multisets of keys up to a stated size and all search keys",
  "Tests use a few fixed key sets.",
  ["include/mutable/storage/Index.hpp", "src/storage/Index.cpp"],
  [("binary search / learned search over sorted entries", "include/mutable/storage/Index.hpp")])
p("C17", "The reader-writer lock excludes writers and loses no wake-up",
  "Under every interleaving of threads, a writer never holds the lock together with another holder, an upgrade happens without another writer in between, every blocked thread proceeds once the lock is free, and lock handles release exactly what they acquired.",
  ["schedules", "histories"], "all interleavings of a stated number of threads and operations",
  "Tests run a few schedules with sleeps.",
  ["include/mutable/util/reader_writer_lock.hpp"],
  [("mutex and condition variables", "include/mutable/util/reader_writer_lock.hpp")])
p("C18", "Scheduled commands run one transaction at a time, in arrival order",
  "For every history of submissions from concurrent transactions, the scheduler hands out each command once, in submission order within a transaction, never interleaves two transactions' commands once one has started, and refuses commands after it is closed.",
  ["histories", "schedules"], "all submission histories of a stated length",
  "No test enumerates orders.",
  ["src/catalog/SerialScheduler.cpp", "src/catalog/SerialScheduler.hpp"],
  [("command queue", "src/catalog/SerialScheduler.cpp")])
p("C19", "Sorting and partitioning permute their input into the promised order",
  "For every sequence, the in-place sort leaves a permutation of it in ascending order, and each partitioning step leaves a permutation split at the returned position so that nothing before it exceeds the pivot and nothing after it is below.",
  ["inputs"], "all sequences up to a stated length",
  "Tests sort random data.",
  ["src/util/algorithms.hpp"],
  [("branchless partition and quicksort", "src/util/algorithms.hpp")])
p("C20", "Integer helpers compute their mathematical definition at every width",
  "For every argument in range, the rounding, power-of-two, logarithm, sum and saturating arithmetic helpers and the checked numeric conversions return the mathematically defined value at every integer width, with no overflow or undefined behaviour.",
  ["inputs"], "all argument values at each supported width",
  "Tests try a few constants.",
  ["include/mutable/util/fn.hpp", "src/util/fn.cpp"],
  [("bit tricks", "include/mutable/util/fn.hpp")])
p("C21", "Escaping and unescaping of text are inverse and lossless",
  "For every string, escaping then unescaping returns it unchanged, quoting and unquoting are inverse, and date and datetime texts convert to the stored number and back without loss; malformed text is rejected or handled without memory errors.",
  ["inputs"], "all byte strings up to a stated length",
  "Tests use fixed strings.",
  ["include/mutable/util/fn.hpp", "src/util/fn.cpp"],
  [("escape, unescape, quote, unquote", "src/util/fn.cpp")])
p("C22", "Tuples keep values and NULLs apart and compare accordingly",
  "For every tuple and every sequence of updates, reading an attribute yields the value last set or NULL, cloning, moving, swapping or inserting a tuple preserves both, tuples of equal numeric, boolean or date contents are equal and hash alike, tuples differing in a value or a NULL are unequal, and updates to one attribute never alter another.",
  ["inputs", "histories"], "all values and NULL patterns of tuples with a stated number of attributes",
  "Tests set fixed values.",
  ["include/mutable/IR/Tuple.hpp", "src/IR/Tuple.cpp"],
  [("value array and NULL bit set", "include/mutable/IR/Tuple.hpp")])
p("C23", "The duplicate-keeping hash table is a multimap",
  "For every history of insertions with or without duplicates, lookups, bucket iterations and resizes, the hash table reports exactly the entries inserted, with the same values, a size equal to their number, and at most one entry per key where duplicates are excluded.",
  ["histories", "inputs"], "all histories of a stated length over all keys and hash values",
  "Tests insert fixed sequences.",
  ["src/util/container/RefCountingHashMap.hpp"],
  [("robin-hood style probing with reference counts", "src/util/container/RefCountingHashMap.hpp")])
p("C24", "Lists and ordered containers implement their sequence",
  "For every history of insertions, removals, moves and copies, the linked list, the sorted vector and the fixed-size array hold exactly the sequence their interface describes, iterate it in both directions, and free every element once.",
  ["histories", "inputs"], "all operation histories of a stated length over all element values",
  "Tests use fixed histories.",
  ["include/mutable/util/ADT.hpp"],
  [("doubly_linked_list, sorted_vector, dyn_array", "include/mutable/util/ADT.hpp")])
p("C25", "Allocators hand out disjoint, aligned memory and reclaim it",
  "For every history of allocations and deallocations, each block handed out has at least the requested size and the requested alignment, overlaps no other live block, keeps its contents until freed, and after all blocks are freed nothing is leaked.",
  ["histories", "inputs"], "all histories of a stated length over all sizes and alignments in bounds",
  "Tests use fixed sizes.",
  ["include/mutable/util/list_allocator.hpp", "include/mutable/util/malloc_allocator.hpp"],
  [("page list with bump pointer", "include/mutable/util/list_allocator.hpp")])
p("C26", "Pooled values have one address and an exact reference count",
  "For every history of insertions, copies, moves, casts and drops of pooled values, equal values share one address and unequal values never do, also when threads pool concurrently; every handle shows its value, the reference count equals the number of live handles, and destroying the pool releases every value exactly once.",
  ["histories", "inputs", "schedules"], "all histories of a stated length over all values",
  "Tests use a fixed history per operation.",
  ["include/mutable/util/Pool.hpp"],
  [("reference-counted pool", "include/mutable/util/Pool.hpp")])
p("C27", "Physical planning covers the whole logical plan at least cost",
  "For every logical plan and every set of registered physical operators, the physical plan chosen covers every logical operator exactly once, respects each physical operator's pre-conditions, and has the least total cost among such covers; an impossible plan is rejected.",
  ["programs", "inputs"], "all operator costs and applicability patterns over plans of stated size",
  "No test varies costs.",
  ["include/mutable/IR/PhysicalOptimizer.hpp", "src/IR/PhysicalPlanTable.hpp"],
  [("bottom-up pattern matching", "include/mutable/IR/PhysicalOptimizer.hpp")])
p("C28", "Command-line arguments are parsed to exactly the options they spell",
  "For every argument vector, each option present invokes its handler once with the value following it, unknown long options are skipped, remaining arguments are kept in order as positional, numeric values are converted exactly or rejected, and no argument is read outside the vector.",
  ["inputs"], "all argument vectors up to a stated size",
  "Tests cover fixed vectors.",
  ["include/mutable/util/ArgParser.hpp", "src/util/ArgParser.cpp"],
  [("option table and parsers", "src/util/ArgParser.cpp")])
p("C29", "Compiled WebAssembly execution agrees with the interpreter",
  "For every query and every table content, the code-generating backend returns the same rows as the interpreter.",
  ["inputs", "programs"], "all queries and contents",
  "The backend is not built in this configuration.",
  ["src/backend/WasmOperator.cpp", "src/backend/WasmUtil.cpp"],
  [("WebAssembly code generation", "src/backend/WasmOperator.cpp")])
p("C30", "Learned cardinality models estimate what their data implies",
  "For every training table, a sum-product network's probability and update operations stay consistent with the data it was trained on, within the model's error.",
  ["inputs"], "all training tables",
  "Tests use fixed data.",
  ["src/util/Spn.cpp", "src/util/Kmeans.cpp", "src/util/RDC.cpp"],
  [("SPN learning", "src/util/Spn.cpp")])
p("C31", "Cardinality estimates respect the operations they describe",
  "For every table size and injected cardinality, the estimator returns injected cardinalities exactly, estimates a scan at the table's size, a limit at no more than its bound, a join at no more than the Cartesian product, and grouping at no more than its input.",
  ["inputs"], "all table sizes, limits and injected values",
  "Tests use fixed sizes.",
  ["src/catalog/CardinalityEstimator.cpp", "include/mutable/catalog/CardinalityEstimator.hpp"],
  [("estimators and injection table", "src/catalog/CardinalityEstimator.cpp")])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
