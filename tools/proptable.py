IN = ["inputs"]
prop("C01", "Traversal visits every node exactly once, in the documented order",
 "Traversing a graph or node, in pre- or postorder and by frame order or by node-order column, yields every reachable node exactly once however many parents it has; siblings come in sorted order, a preorder node follows one of its parents and a postorder node follows all its descendants. Graph length, tree test, node numbering (0..n-1 in traversal order), depths and root-to-node path lists all agree with the real edge structure.",
 ["inputs"], "every tree, forest and shared-node DAG, every traversal order and attribute selection",
 "Unit tests walk half a dozen hand-written graphs; the claim is about every graph shape, including several roots, shared subtrees and equal-named siblings.",
 [GR, ND], [("depth-first walk with visited dict", "Node.traverse / Graph.traverse"), ("renumbering", "Graph.enumerate_traverse, enumerate_depth")],
 ["Graph.traverse", "Node.traverse", "Graph.node_order_traverse", "Graph.is_tree", "len(Graph)", "Node.paths"],
 "Exact comparison with an independent walk on seeded random graphs; says nothing about graphs outside the generator's sizes (<= ~40 nodes).")
prop("C02", "Frames and nodes obey consistent equality, hashing and ordering",
 "Frames are equal exactly when their attribute sets (with the default type) are equal, equal frames hash equally, and frame comparison is a strict total order on comparable attribute values; copying a frame or node gives an equal but independent object. Attribute look-up (single, list, missing, default) returns what was stored.",
 ["inputs"], "all attribute dictionaries with comparable values, all triples of frames, in any construction style (dict, keywords, both)",
 "Ordering laws quantify over pairs and triples of frames; tests compare a few literals.",
 [FR, ND], [("sorted tuple representation", "Frame.tuple_repr"), ("id ordering", "Node.__lt__/__eq__/__hash__")],
 ["Frame comparisons", "Frame.copy", "Frame.values", "Node comparisons"],
 "Laws checked on all pairs and triples of seeded random frame pools.")
prop("C03", "Graph equality is exactly structural equality",
 "Two graphs compare equal when they have the same call structure (same frames, same parent-child edges, same sharing), whatever order roots and children were added in, and compare unequal when any frame, edge, node or root differs; equality is reflexive, symmetric and consistent with inequality.",
 ["inputs"], "every pair of trees, forests and DAGs whose siblings have distinct frames, and every single-point structural edit of one of them",
 "Tests compare a few equal graphs and a few different ones; a dropped comparison only shows on specific edit positions.",
 [GR, ND], [("simultaneous sorted walk", "Graph.__eq__ / Node.dag_equal")], ["graph == graph", "graph != graph"],
 "Decided against an independent canonical form, on seeded random graphs and all single-point edits of them.")
prop("C04", "Copies are faithful; deep copies are fully independent",
 "A deep copy has an equal, separately owned graph and an equal dataframe that refers only to its own nodes, keeps metric lists, default metric and metadata, and later changes to either side are never visible in the other; a graph copy keeps structure, sharing and numbering and its old-to-new map is a bijection. A pickled and unpickled graphframe is a deep copy, too. A shallow copy shares the graph but its added columns, metric lists and metadata entries stay its own.",
 ["inputs", "histories"], "all graphframes (single and multi-index, trees, forests, DAGs, node-order graphs) and all later mutations of copy or original",
 "Aliasing shows only when a mutation follows the copy; tests check few attributes and rarely mutate.",
 [GF, GR], [("node clone map", "GraphFrame.deepcopy / Graph.copy"), ("shallow frame copy", "GraphFrame.copy")],
 ["GraphFrame.copy", "GraphFrame.deepcopy", "Graph.copy"],
 "Deep snapshots of both sides around seeded random mutations.")
prop("C05", "Graph union contains exactly the call paths of both graphs",
 "The union of two graphs contains every root-to-node call path of either graph (and, for trees and forests, no other), every edge of either graph between the mapped nodes, and matches nodes of equal frame under matching parents into one node; it is made of new nodes only, leaves both inputs unchanged, is correctly numbered, maps every old node to its new node, and is idempotent and commutative up to structural equality.",
 ["inputs"], "every pair of trees and forests with arbitrary overlap; acyclic graphs with shared nodes (whose overlay is acyclic) for path and edge preservation",
 "The merge walk has five cases per sibling pair; tests cover a few small pairs.",
 [GR], [("sorted merge of sibling lists", "Graph.union")], ["Graph.union", "old_to_new map"],
 "Compared with a set-of-paths union model on seeded random pairs.")
prop("C06", "Filtering by a predicate keeps exactly the satisfying rows",
 "Filtering without squash returns exactly the dataframe rows on which the predicate holds, with the same index, columns, values, metric lists, default metric and metadata, over the same graph. A filter nothing satisfies is refused with the empty-filter error, an unsupported filter argument with the invalid-filter error, and in every case the source graphframe is unchanged.",
 ["inputs", "configurations"], "every graphframe (single or multi-index), every row predicate, one or many worker processes",
 "Tests check a handful of predicates and mostly look at the squashed result.",
 [GF], [("row predicate application", "GraphFrame.filter / parallel_apply")], ["GraphFrame.filter"],
 "Row-for-row comparison with a reference filter on seeded random frames.")
prop("C07", "Parallel filtering is equivalent to sequential filtering",
 "A predicate filter gives the same result whatever the number of worker processes, the way rows are split among them and the order in which workers finish, including more workers than rows, and a squash of it is the same too. A worker whose predicate fails makes the filter call fail; it never hangs and never returns a partial result.",
 ["schedules", "fault_sequences", "configurations"], "all worker counts, all completion orders of workers, faults in any worker, all input sizes relative to worker count",
 "The tests run one schedule with the default worker count; completion order and worker failure are never varied.",
 [GF], [("row split, worker processes, result queue", "GraphFrame.filter / parallel_apply")], ["GraphFrame.filter(num_procs=n)"],
 "Injected per-row delays force different completion orders, which are recorded; faults are injected in chosen workers; a hang is judged by process state (all workers gone, parent still waiting), not by a deadline.",
 technique="runtime monitoring: schedule perturbation and fault injection with a history oracle (parallel vs sequential)")
prop("C08", "Squash rewires the graph to the nearest surviving relatives",
 "After squashing, the graph contains exactly the call paths obtained by deleting the nodes without rows and connecting every survivor to its nearest surviving ancestors, with equal-frame siblings merged; every graph node has rows and every row's node is in the graph. In graphs with shared nodes no surviving call path is lost, and with distinct frames the edges and roots are exactly those among nearest survivors. Survivors stay in the node order recorded by the profile, if it has one. The source graph and dataframe are unchanged.",
 ["inputs"], "every graph shape (trees, forests, recursion; DAGs as long as merging equal-frame siblings closes no cycle) and every subset of surviving nodes, single and multi-index",
 "Which nodes survive determines the rewiring; tests try a few subsets of a few graphs.",
 [GF, GR], [("transitive rewiring", "GraphFrame.squash"), ("merging of equal-frame siblings", "Graph.normalize / merge_nodes")], ["GraphFrame.squash", "GraphFrame.filter(squash=True)"],
 "Compared with a path-projection model on seeded random graphs and survivor sets.")
prop("C09", "Squash conserves metrics",
 "Squashing neither loses nor duplicates metric data: every surviving row's values appear unchanged at its node, rows of nodes merged into one are summed per rank and thread (missing stays missing only if all are missing), and totals of exclusive metrics over all rows equal the totals before. Non-metric columns keep a value from the merged rows.",
 ["inputs"], "every graphframe, survivor set, NaN pattern, multi-index layout and metric set",
 "Conservation must hold for every merge pattern; tests check fixed sums on fixed data.",
 [GF], [("group-by with min_count sum", "GraphFrame.squash")], ["GraphFrame.squash result dataframe"],
 "Per-path metric ledgers before and after, on seeded random frames.")
prop("C10", "Inclusive metrics equal exclusive metrics summed over the subgraph",
 "Recomputing inclusive metrics (directly, after squash, on literal-list graphs or through subgraph sums into new or existing columns) sets each node's value, for each rank and thread, to the aggregate of the source column over that node and all its distinct descendants, counting a shared descendant once, with all-missing staying missing. Other columns are unchanged and the metric lists and inclusive names follow the documented naming.",
 ["inputs"], "trees, forests and DAGs, single and multi-index, NaN patterns, any metric columns, aggregation sum, max or min",
 "The forest/DAG path and its multi-index variant are only tested on a few graphs with constant metrics.",
 [GF], [("bottom-up and subgraph aggregation", "GraphFrame.subtree_sum, subgraph_sum, update_inclusive_columns")],
 ["GraphFrame.update_inclusive_columns", "GraphFrame.subgraph_sum", "GraphFrame.subtree_sum"],
 "Recomputed from the edge structure for every node on seeded random frames.")
prop("C11", "Generated exclusive metrics are inclusive minus children's inclusive",
 "Generating exclusive columns gives each node, per rank and thread, its inclusive value minus the sum of its children's inclusive values (missing counted as zero), only for numeric inclusive metrics that lack an exclusive partner or are explicitly requested, under the documented names, and leaves all other columns unchanged. On trees, whose nodes all have rows for the same ranks, recomputing inclusive metrics from the generated exclusive ones gives the original inclusive values back.",
 ["inputs"], "all graphframes, single and multi-index, all combinations of metric names and requested subsets",
 "Tests use two fixed datasets.",
 [GF], [("child subtraction", "GraphFrame.generate_exclusive_columns")], ["GraphFrame.generate_exclusive_columns"],
 "Recomputed independently on seeded random frames.")
prop("C12", "Dropping index levels aggregates each node's rows exactly once",
 "Dropping index levels leaves one row per node: each metric is the chosen aggregate (mean by default) of that node's rows over all ranks and threads, every other column keeps that node's first value, and the graph, metric lists and set of nodes are unchanged.",
 ["inputs"], "all multi-index layouts (rank, thread, both, any order), aggregations, NaN patterns",
 "Tests use regular rank/thread grids from two files.",
 [GF], [("group by node", "GraphFrame.drop_index_levels")], ["GraphFrame.drop_index_levels"],
 "Recomputed from the original rows on seeded random, possibly ragged, indices.")
prop("C13", "Group-by aggregation keeps membership, values and call relations",
 "Group-aggregating a graphframe yields one node per group whose row is the aggregate of exactly that group's rows, and an edge between two distinct groups exactly when some member of one calls a member of the other; roots are the groups of original roots, each node and row is named after its group, and the source graphframe is unchanged.",
 ["inputs"], "all single-index graphframes and groupings by a column (also its name or id column) with a value for every node, or by a function of the nodes",
 "One grouping of one literal graph is tested.",
 [GF], [("super-node reindexing", "GraphFrame.groupby_aggregate")], ["GraphFrame.groupby_aggregate"],
 "Quotient-graph model on seeded random frames.")
prop("C14", "Graphframe arithmetic combines metrics by call path",
 "Adding, subtracting, multiplying or dividing two graphframes (method, operator or in-place form) gives a graphframe over the union of both graphs in which every metric of a row (call path, rank and thread) present in both is the element-wise result, the left value staying where that result is undefined (missing operand, 0/0). Call paths present in only one operand keep their identity and non-metric columns and their metrics are not altered by data of another path. The in-place forms return the left graphframe itself, the others a new one; where several nodes of an operand become one node of the union, their metrics are summed first.",
 ["inputs"], "all pairs of graphframes: identical, disjoint, overlapping, subset, forests, with the same metric columns, NaN, multi-index",
 "Row alignment depends on numbering of the union; tests use a few literal pairs.",
 [GF, GR, "hatchet/cython_modules/graphframe_modules.pyx"], [("unification and row insertion", "GraphFrame.unify / _insert_missing_rows"), ("element-wise operator", "GraphFrame._operator")],
 ["GraphFrame.add/sub/mul/div", "+ - * /", "+= -= *="],
 "Per-call-path ledger arithmetic compared with the result on seeded random pairs.")
prop("C15", "Unifying marks exactly the call paths missing from one side",
 "Unifying two graphframes puts both on one union graph and re-indexes their rows by its nodes without losing or altering any row; the first gains one row, without metric values, for each row of a call path it lacked. When paths differ, the missing-node marks say for each call path whether it is in both, only the first or only the second, whatever marks an earlier operation left, and no marks appear when none differ. Rows of nodes of one graph that become one node of the union are combined into one, their metrics summed up.",
 ["inputs"], "all pairs of graphframes, single index and equal multi-index layouts",
 "The marking uses hashed ids, sorting and a native binary search; tests check few shapes.",
 [GF, "hatchet/cython_modules/graphframe_modules.pyx"], [("binary search membership", "fast_not_isin"), ("marking", "insert_one_for_self_nodes")],
 ["GraphFrame.unify", "_missing_node column"],
 "Set-difference model on seeded random pairs.")
prop("C16", "Operations documented as non-modifying leave their inputs untouched",
 "Filtering, squashing, copying, graph union, arithmetic in method or operator form, queries, group-by, comparison, traversal and every export (tree, dot, flamegraph, literal, dict, JSON, HDF5) leave the graphs, dataframes, metric lists and metadata of all their operands unchanged, also when the call fails; in-place arithmetic leaves its right operand unchanged, repeating a pure call gives the same answer, and later edits of one graphframe's dataframe columns, metric lists or metadata do not reach frames derived from it or independent of it (only shallow copies share data).",
 ["inputs", "histories"], "all graphframes and all sequences of such calls",
 "Tests seldom look at an operand after the call, and aliasing between derived frames needs a history of calls.",
 [GF, GR], [("defensive copies", "GraphFrame.filter/squash/add/..., reset_index/set_index pairs")], ["every public read-only or value-returning call"],
 "Deep snapshots before and after every call in seeded random call histories.")
prop("C17", "Graph and dataframe stay mutually consistent through any history",
 "After any sequence of public operations every graphframe is well formed: the parent and child links mirror each other, nodes are numbered 0..n-1 in traversal order, depths match, every row's node belongs to the graph, index entries are unique, metric lists name existing columns, and metric lists, default metric and metadata are carried over to derived frames.",
 ["histories", "inputs"], "all finite sequences of filter, squash, copy, deepcopy, union, arithmetic, drop-levels, metric generation, group-by and reads",
 "A defect in one operation often only harms a later one; tests run operations in isolation.",
 [GF, GR, ND], [("renumbering after rewiring", "Graph.enumerate_traverse"), ("re-indexing", "GraphFrame.*")], ["every graphframe returned by the API"],
 "Invariant monitor at every public call boundary in seeded random histories.")
prop("C18", "A call-path query returns exactly the nodes on matching paths",
 "Applying a call-path query returns exactly the nodes lying on some downward path of the graph that matches the whole pattern, where '.', an integer n, '+' and '*' match one, exactly n, at least one, and any number of consecutive nodes satisfying that position's filter; nothing matching gives the empty-filter error.",
 ["inputs", "programs"], "all patterns of quantifiers and predicates up to the generated length, on trees, forests and DAGs",
 "The matcher has many interacting wildcard cases; tests use a dozen fixed patterns on one or two graphs.",
 ["hatchet/query/engine.py", "hatchet/query/query.py"], [("recursive matcher with per-node cache", "QueryEngine"), ("quantifier expansion", "Query._add_node")],
 ["GraphFrame.filter(query)", "QueryEngine.apply"],
 "Compared with an automaton-based matcher over all downward paths on seeded random graphs.")
prop("C19", "Query conditions hold exactly when the attribute satisfies them",
 "A condition in an object or string query holds for a node exactly when the stated relation holds for its value: full-match regular expressions (object dialect), string operators or regular expressions matching from the start (string dialect) on text, numeric equality and comparisons, missing, infinite, depth, node-id and leaf tests. List values and several attributes must all hold, AND/OR/NOT have their usual precedence, and a condition on a column the data lacks does not match.",
 ["inputs", "programs"], "all attribute types, operators, values (including NaN, infinities and negative numbers) and boolean combinations",
 "Each operator has separate code for single and multi-index data and per dialect; tests sample constants.",
 ["hatchet/query/object_dialect.py", "hatchet/query/string_dialect.py"], [("object predicate", "_process_predicate"), ("string predicate generation", "StringQuery")],
 ["filter(query) node set for single-position queries"],
 "Compared with a direct evaluation of the condition for each node.")
prop("C20", "Multi-index modes 'any' and 'all' quantify over a node's rows",
 "On data with rank or thread levels a condition matches a node in mode 'any' when at least one of the node's rows satisfies it and in mode 'all' when every row does, for every kind of condition and both query dialects; AND, OR and NOT combine such quantified conditions, and using mode 'off' with such data is rejected.",
 ["inputs", "configurations"], "all multi-index layouts, conditions, modes and dialects",
 "Tests sample a few conditions in each mode on one dataset, where rows hardly differ across ranks.",
 ["hatchet/query/object_dialect.py", "hatchet/query/string_dialect.py"], [("row quantification", "_process_multi_index_mode and string-dialect variants")],
 ["filter(query, multi_index_mode=...)"],
 "Compared with per-row evaluation and explicit quantification.")
prop("C21", "The query dialects are equivalent",
 "The same pattern written as a list (object dialect), as a string, with the match/rel builder or through the compatibility classes selects the same nodes, whichever of the raw or constructed forms is passed to filter.",
 ["programs", "inputs"], "all patterns expressible in several dialects",
 "Tests write each dialect's cases separately with different constants.",
 ["hatchet/query/"], [("dialect front ends", "ObjectQuery, StringQuery, Query, compat")], ["filter(query)"],
 "Pairwise comparison of results for the same generated pattern in all dialects.")
prop("C22", "Compound queries are set algebra on their operands' results",
 "Conjunction, disjunction, exclusive disjunction and negation of queries, in class, operator, compatibility and string-brace form and nested to any depth, select exactly the intersection, union, symmetric difference and complement of the nodes their operands select.",
 ["programs", "inputs"], "all nestings of the four connectives over arbitrary subqueries in any dialect",
 "Tests combine two or three fixed subqueries.",
 ["hatchet/query/compound.py", "hatchet/query/compat.py", "hatchet/query/string_dialect.py"], [("set operations", "CompoundQuery._apply_op_to_results")], ["filter(compound query)"],
 "Set algebra over separately observed operand results.")
prop("C23", "Literal input is read faithfully",
 "Reading a literal description gives a graph with exactly the described call structure (nodes given the same id are one shared node) and a dataframe holding exactly the described metrics and names for each node, with inclusive and exclusive metric lists by name; building from nested lists gives the listed structure with unit metrics.",
 IN, "all literals: trees, forests, shared ids, absent metrics, extra attributes",
 "Tests read fixed literals.",
 ["hatchet/readers/literal_reader.py", GF], [("recursive parse", "LiteralReader.parse_node_literal")], ["GraphFrame.from_literal", "GraphFrame.from_lists"],
 "Generated literals compared with the graphframe read.")
prop("C24", "JSON and dictionary export round-trips",
 "Exporting a graphframe to a dictionary or JSON and reading it back gives an equal graph and the same rows, values, index and metric lists, numeric metrics staying numeric, nodes traversed in the same order; exporting the result again describes the same content.",
 IN, "all graphframes with JSON-representable values, trees, forests, DAGs, multi-index, missing values",
 "One file is round-tripped.",
 [GF, "hatchet/readers/json_reader.py"], [("node-id encoding", "GraphFrame.to_dict"), ("rebuild", "JsonReader.read")], ["GraphFrame.to_dict", "GraphFrame.to_json", "GraphFrame.from_json"],
 "Round trip of seeded random frames against their snapshots.")
prop("C25", "HDF5 checkpoints round-trip",
 "Saving a graphframe to HDF5 and loading it gives an equal graph, the same rows, values and index, and the same metric lists and default metric, nodes traversed in the same order; several graphframes saved under different keys of one file do not disturb one another.",
 ["inputs", "histories"], "all graphframes with storable columns, trees, forests, DAGs, multi-index, missing values, repeated saves",
 "Two datasets are round-tripped.",
 ["hatchet/writers/", "hatchet/readers/dataframe_reader.py", "hatchet/readers/hdf5_reader.py"], [("node flattening", "DataframeWriter"), ("rebuild", "DataframeReader")], ["GraphFrame.to_hdf", "GraphFrame.from_hdf"],
 "Round trip of seeded random frames against their snapshots, in a scratch directory.")
prop("C26", "The tree rendering shows the call tree truthfully",
 "The rendered tree has one line for each visited node down to the chosen depth, in sorted (or recorded node) depth-first order, indented by its depth, with its metric value(s) at the chosen precision for the chosen rank and thread, its (possibly truncated) name, and markers for annotations and for paths missing from one side; colours and the legend are additions that can be switched off; metric columns and colour maps that do not exist are refused with KeyError and ValueError.",
 ["inputs", "configurations"], "all graphframes and combinations of rendering options",
 "Tests look for substrings in a few outputs.",
 ["hatchet/external/console.py"], [("recursive renderer", "ConsoleRenderer.render")], ["GraphFrame.tree"],
 "Output parsed line by line and compared with a reference layout.")
prop("C27", "DOT export contains exactly the graph's nodes and edges",
 "For every graphframe (shared nodes and cycles included) whose metric values are present and non-negative, DOT output is well formed and declares exactly one node per graph node, labelled with its name and coloured by its metric for the chosen rank and thread, and exactly one edge per caller-callee pair; with a threshold, only the nodes reachable from a root through nodes whose metric reaches that share of the maximum, and the edges among them, are shown.",
 ["inputs", "configurations"], "all graphframes, metrics, ranks and threads",
 "One output is compared as text.",
 ["hatchet/util/dot.py"], [("dot writer", "trees_to_dot")], ["GraphFrame.to_dot"],
 "Output parsed and compared with the edge structure.")
prop("C28", "Flame-graph export lists every call path with its metric",
 "Folded-stack output has exactly one line per node, giving its full call path from the root in order followed by the node's metric, for the chosen rank and thread, rounded to an integer.",
 ["inputs", "configurations"], "all trees and forests, metrics, ranks and threads",
 "One output is checked.",
 [GF], [("path walk", "GraphFrame.to_flamegraph")], ["GraphFrame.to_flamegraph"],
 "Output compared with a reference list of stacks.")
prop("C29", "Literal export describes the graph and metrics faithfully",
 "The literal export has the graph's exact nesting in sorted order with each node's frame, name, chosen categorical attributes and all metric values for the chosen rank and thread (missing and infinite values exported as zero), can be written as JSON as it is, and reading it back gives an equal graph with the same metrics.",
 ["inputs", "configurations"], "all trees, forests and DAGs, with any metric values",
 "One literal is round-tripped.",
 [GF, "hatchet/readers/literal_reader.py"], [("recursive export", "GraphFrame.to_literal")], ["GraphFrame.to_literal"],
 "Export compared with the model of the frame, and re-read.")
R = "The shipped sample files are one shape each; a reader must be right on every database of the format."
def reader(id, title, statement, q, files, mech, obs, note):
    prop(id, title, statement, ["inputs"], q, R, files, mech, obs, note)
reader("C30", "HPCToolkit databases are read faithfully",
 "Reading an HPCToolkit database gives one node per calling-context element with its procedure, file, line and type attributes and its nesting, and one row per node, rank and thread with the metric values stored for it in that rank's metric file (byte order, offset and column respected); a procedure's exclusive time excludes what its directly contained statements report, and the result does not depend on file order or worker scheduling.",
 "all databases: nesting, ranks, threads (also uneven or GPU streams), metric columns", ["hatchet/readers/hpctoolkit_reader.py", "hatchet/cython_modules/reader_modules.pyx"],
 [("shared-memory metric load", "HPCToolkitReader.fill_tables"), ("XML walk", "parse_xml_node")], ["GraphFrame.from_hpctoolkit"],
 "Databases synthesised from a known profile and compared value by value.")
reader("C31", "Caliper JSON profiles are read faithfully",
 "Reading a Caliper JSON-split profile gives exactly the recorded call tree with names, and for every node and rank the recorded values of every column (zero-filled for ranks or nodes without a record), with metric columns classified as inclusive or exclusive and metadata preserved, whether given as file name or stream.",
 "all JSON-split profiles: trees, forests, ranks, missing records, extra columns, node order, sampled call paths with source locations", ["hatchet/readers/caliper_reader.py"],
 [("json sections and node creation", "CaliperReader")], ["GraphFrame.from_caliper"],
 "Profiles synthesised from a known profile and compared value by value.")
reader("C32", "Native Caliper files are read faithfully",
 "Reading a native .cali file gives exactly the recorded region tree, and for every region and rank with records the recorded metric values under their user-facing (or native) names, with global metadata preserved.",
 "all .cali files: trees, forests, ranks, metrics, several records per region", ["hatchet/readers/caliper_native_reader.py"],
 [("record walk", "CaliperNativeReader")], ["GraphFrame.from_caliperreader"],
 "Files synthesised from a known profile and compared value by value.")
reader("C33", "Caliper time series keep every interval",
 "Reading a time-series .cali file gives one graphframe per recorded interval in order, each holding exactly that interval's values: a region recorded in the interval has exactly the recorded values, a region without a record in it has none (zero or missing), and records made before the first interval belong to interval 0 (or to a frame of their own when the first interval is later). All frames have the same metrics, each listed once and with a column, and the run's metadata.",
 "all time-series files: interval counts, sparse regions", ["hatchet/readers/caliper_native_reader.py"],
 [("interval split", "CaliperNativeReader.read_timeseries")], ["GraphFrame.from_timeseries"],
 "Files synthesised from a known time series and compared value by value.")
reader("C34", "TAU profiles are read faithfully",
 "Reading a TAU profile directory gives the union of all recorded call paths over ranks and threads, with each call path's exclusive and inclusive value for every metric, rank and thread as recorded (a call path without record at a rank, or at a thread of a rank it has records for, has a row there with no value: zero or missing), and names, files and line numbers parsed from the event.",
 "all TAU directories: single and multiple metrics, ranks, threads, differing call paths per rank", ["hatchet/readers/tau_reader.py"],
 [("profile merge", "TAUReader")], ["GraphFrame.from_tau"],
 "Directories synthesised from a known profile and compared value by value.")
reader("C35", "Timemory trees are read faithfully",
 "Reading a timemory tree (dictionary, stream, file, directory of files, or the running application) gives exactly the recorded call tree with parsed names, files and lines and, for each node, rank and thread, the recorded exclusive and inclusive metric values of every selected component; records that do not exist have no value (zero or missing), and a dictionary that is read is left as it was.",
 "all timemory trees: components, ranks, threads, nesting", ["hatchet/readers/timemory_reader.py"],
 [("tree walk", "TimemoryReader")], ["GraphFrame.from_timemory"],
 "Trees synthesised from a known profile and compared value by value.")
reader("C36", "gprof2dot call graphs are read faithfully",
 "Reading a gprof2dot DOT file gives one node per function and one edge per call edge, with each function's module and inclusive and exclusive time percentages as written, and roots exactly the functions nobody else calls; recursion is kept as an edge.",
 "all call graphs in which every function is reachable from one that nobody else calls", ["hatchet/readers/gprof_dot_reader.py"],
 [("dot walk", "GprofDotReader")], ["GraphFrame.from_gprof_dot"],
 "Files synthesised from a known call graph and compared.")
reader("C37", "cProfile statistics are read faithfully",
 "Reading a cProfile statistics file gives one node per function (file, line and name) with its number of calls and primitive calls, own and cumulative time, and an edge for each recorded caller-callee pair, with roots the functions without other callers. Hatchet's own Profiler records what ran between start and stop, adds up over runs and added files, starts afresh after reset, and never overwrites an existing file.",
 "all profiles in which every function is reachable from one without other callers, including real profiles of generated programs", ["hatchet/readers/cprofile_reader.py"],
 [("stats walk", "CProfileReader")], ["GraphFrame.from_cprofile"],
 "Statistics synthesised and recorded, compared with pstats' own view.")
reader("C38", "Pyinstrument profiles are read faithfully",
 "Reading a pyinstrument JSON profile gives exactly the recorded frame tree with each frame's function, short file path, line and application-code flag, its inclusive time as recorded and its exclusive time as inclusive minus its children's.",
 "all pyinstrument trees", ["hatchet/readers/pyinstrument_reader.py"],
 [("recursive parse", "PyinstrumentReader")], ["GraphFrame.from_pyinstrument"],
 "Files synthesised from a known tree and compared.")
reader("C39", "Spot datasets are read faithfully",
 "Reading runs from a Spot database gives one graphframe per requested run found, in order, each with the recorded region tree, metric values under their display names, and the run's metadata.",
 "all run sets, region paths, metrics and id selections", ["hatchet/readers/spotdb_reader.py"],
 [("path split", "SpotDatasetReader")], ["GraphFrame.from_spotdb"],
 "A stand-in database object serves synthesised runs; results are compared value by value.")
prop("C40", "Native helpers are memory-safe and compute the specified result",
 "The compiled helpers behind unification, arithmetic and HPCToolkit reading never read or write outside their arrays and have no undefined behaviour on any input the package hands them, and their results equal the plain set-membership, marking and subtraction they replace.",
 ["inputs"], "all sorted id tables (empty, duplicate, disjoint, equal), index sets and metric tables the package can pass",
 "The helpers are compiled with bounds checks off; tests call them on a few inputs without sanitizers.",
 ["hatchet/cython_modules/"], [("binary search", "fast_not_isin"), ("marking", "insert_one_for_self_nodes"), ("statement subtraction", "subtract_exclusive_metric_vals")],
 ["native calls during unify, arithmetic and HPCToolkit reads"],
 "AddressSanitizer and UndefinedBehaviorSanitizer build of the extensions with exact-size heap buffers, plus value oracles; red-zone tools can miss non-adjacent overflows.",
 technique="compiler sanitizers (ASan+UBSan) on rebuilt extensions, plus value oracle")
prop("C41", "Results do not depend on the process they are computed in",
 "The same calls on the same inputs give the same observable results in every process: node numbering and depths, row order, column order, metric lists and default metric, metadata, query results, exported texts and errors depend neither on the string hash seed of the interpreter, nor on where objects lie in memory, nor on the order in which the file system lists a directory, nor on the number of processors, nor on what the process read or computed before.",
 ["inputs", "configurations"], "all readers, exporters, queries and graphframe operations, and histories of them, under any hash seed, memory layout, directory listing order and earlier work of the process",
 "One test run has one hash seed and one memory layout; results that come out of a set, an address comparison an unsorted listing or a module-level counter look right in it and differ in the next.",
 [GF, GR, ND, "hatchet/readers/"], [("traversal order of siblings", "Node.traverse / traversal_order"), ("merging of equal siblings", "Graph.find_merges"), ("metric lists", "GraphFrame.update_inclusive_columns, generate_exclusive_columns"), ("directory listings", "readers")],
 ["all public GraphFrame methods", "Graph.union", "Graph.copy", "QueryEngine.apply"],
 "Every case runs in three interpreters (other hash seeds, allocator, scattered heap, shuffled listings, other calls before it) and the ordered records of all public calls are compared; a dependence that needs a rarer layout can be missed.",
 technique="runtime monitoring: differential execution of recorded call logs across interpreters with perturbed hash seed, heap layout and directory order")

prop("C42", "Calls leave the process, their source files and their arguments as they were",
 "A public call, whether it returns or raises, leaves behind what it found: the files and directories it reads are unchanged; it leaves no files open, no child processes, no threads and no temporary or stray files; the lists, dictionaries and reader objects it was given are unchanged; and the working directory, the environment, the module path, warning filters, pandas and NumPy options, random states and signal handlers of the process are as before.",
 ["inputs", "fault_sequences", "histories"], "all readers (also of files cut off, garbled or missing), exporters, queries, operations and parallel filters, and histories of them",
 "Tests look at what a call returns; what it leaves behind accumulates over a user's session (file handles, worker processes, options) or spoils the input of the next call, mostly on error paths no test takes.",
 [GF, GR, "hatchet/readers/", "hatchet/writers/"], [("worker processes and shared memory", "HPCToolkitReader.fill_tables, GraphFrame.filter"), ("sub-process", "CaliperReader.read_json_sections"), ("files and stores", "HDF5Reader, HDF5Writer, TAUReader, TimemoryReader"), ("dictionaries given by the user", "GraphFrame.from_literal, from_dict")],
 ["every public method of GraphFrame, Graph, Node and the query classes"],
 "The recursion limit may change: filter() has a documented rec_limit. An output parameter (old_to_new, visited) may change. Anonymous shared memory that multiprocessing keeps for reuse is not counted as an open file.",
 technique="runtime monitoring: snapshot of process state, sources and arguments around every outermost public call, with damaged sources as injected faults")

prop("C43", "Profiles that are cut off are never read as other values",
 "Reading a profile of which a file ends early (a crash, a full disk, an unfinished copy) raises an error for the formats whose end can be told (HPCToolkit metric files and XML, HDF5, Caliper JSON, timemory, gprof dot, cProfile, pyinstrument and hatchet JSON); for line-based formats cut after a line (TAU, native Caliper, time series) it raises an error or gives, for each call path, rank, thread and metric, either the value of the complete profile or none (missing, or the zero filled in for absent rows).",
 ["fault_sequences", "inputs"], "all profiles of these formats and every point at which one of their files may end",
 "Tests read complete files; a file that ends early must not turn into plausible numbers of other nodes.",
 ["hatchet/readers/"], [("shared-memory metric load", "read_metricdb_file"), ("JSON readers", "caliper_reader, timemory_reader, pyinstrument_reader, json_reader"), ("line-based readers", "tau_reader, caliper_native_reader")],
 ["all GraphFrame.from_* file readers"],
 "Cuts in the middle of a line of a line-based format may shorten a number and cannot be told; they are not judged.",
 technique="runtime monitoring with fault injection: differential reading of complete and cut-off profiles")

prop("C44", "Failing and interrupted calls leave what they were given as it was",
 "When an operation that returns something new (filter, squash, copy, union, arithmetic, group-by, query, exporter) is interrupted at any point by an exception (Ctrl-C, memory running out, an error in the user's own callback), the graphframes, graphs and queries it was given are exactly as before, and running it again gives the result it gives without interruption; an in-place operation that refuses its arguments has changed neither the graphframe it was called on nor its arguments.",
 ["fault_sequences", "inputs"], "all such operations, all graphframes, all points of interruption, and all kinds of invalid arguments",
 "Non-mutation tests look at calls that succeed; a change made for the duration of a call and taken back at its end is only seen when the call does not reach its end.",
 [GF, GR, ND, "hatchet/query/"], [("copies before work", "GraphFrame.squash, __add__, to_dict"), ("caches", "QueryEngine"), ("check before write", "_init_sum_columns, unify, update_inclusive_columns")],
 ["every public non-in-place method of GraphFrame and Graph, QueryEngine.apply", "subtree_sum", "subgraph_sum", "unify", "in-place arithmetic", "drop_index_levels"],
 "Exceptions are raised at line events of the library's Python code; interruptions inside pandas or compiled code are not injected.",
 technique="runtime monitoring with fault injection: exceptions raised at random library lines, deep snapshots of operands before and after")

prop("C45", "Graphframes share no mutable data with what they were made from or exported to",
 "Once a frame, graphframe or query has been made from a dictionary, list, reader object or database, changing those objects (or using up iterators in them) changes neither it nor what it answers, and making it has not changed them; changing what an export (dictionary, literal, list of columns, list of nodes) returned changes neither the graphframe nor later exports. Several frames can be made from one dictionary.",
 ["inputs", "histories"], "all literals, dictionaries, reader objects, frames and query objects, and all later changes of them",
 "Sharing shows only when a change follows, and then somewhere else: frames are compared by cached attributes and hashes, so a shared dictionary corrupts silently.",
 ["hatchet/frame.py", GF, "hatchet/query/object_dialect.py", "hatchet/readers/"], [("attribute dictionary", "Frame.__init__"), ("exports", "GraphFrame.to_dict, to_literal"), ("predicate closures", "ObjectQuery"), ("metadata", "GraphFrame.__init__")],
 ["Frame", "GraphFrame()", "from_literal", "from_json", "from_timemory", "from_caliperreader", "from_spotdb", "to_dict", "to_literal", "show_metric_columns", "ObjectQuery"],
 "Everything reachable from source or export is overwritten in place; the graph and dataframe passed to GraphFrame() itself are meant to be shared and are not overwritten.",
 technique="runtime monitoring: deep snapshots around in-place overwriting of sources and exports")

prop("C46", "Callbacks may use the library: nested calls do not disturb each other",
 "A predicate of a filter or query, or an aggregation function given to a sum, group-by or drop_index_levels, may itself call any non-modifying operation (queries, also the same one; filters, squashes, unions, arithmetic, traversals, exports) on the same graphframe: the outer call gives what it gives with a callback that makes no such calls, and each inner call gives what it gives on its own. Several traversals of one graph can be advanced in turn.",
 ["inputs", "histories"], "all graphframes, all combinations of outer and inner operations, all points at which the callback is called",
 "Tests use callbacks that only look at their row; state kept on the graphframe or query engine for the duration of a call is overwritten by a nested one without an error.",
 [ENG, GF, GR, ND] if "ENG" in globals() else ["hatchet/query/engine.py", GF, GR, ND], [("cache of matches", "QueryEngine.search_cache"), ("visited dictionaries", "Node.traverse"), ("callbacks", "GraphFrame.filter, subgraph_sum, groupby_aggregate")],
 ["filter", "QueryEngine.apply", "subgraph_sum", "groupby_aggregate", "drop_index_levels", "Graph.traverse"],
 "In-place operations inside callbacks and use from several threads are not judged.",
 technique="runtime monitoring: nested calls injected into callbacks, compared with undisturbed calls")

prop("C47", "Work follows the graph's size, not its number of call paths",
 "On graphs whose nodes are shared by many callers, so that a few dozen nodes have billions of call paths, every operation that is not asked for paths - traversals, len, is_tree, copies, comparison, normalize, union and arithmetic, predicate filters, squash, inclusive and subtree sums, group-by, fixed-length queries, tree, DOT, literal, JSON and HDF5 output and input, reading gprof and cProfile call graphs - finishes with an amount of work bounded by a small polynomial of nodes and edges, and with the right result.",
 ["inputs"], "all layered graphs with shared nodes, up to 10^13 call paths",
 "Test graphs have a handful of paths; a lost visited check or memo gives the same results on them.",
 [GF, GR, ND, "hatchet/query/engine.py"], [("visited dictionaries", "Node.traverse, Graph.copy, Graph.union"), ("memo of squash", "GraphFrame.squash"), ("distinct descendants", "subgraph_sum")],
 ["every public operation on a graph with shared nodes"],
 "Work is counted in executed lines of hatchet (100 x (nodes+edges)^2, some 10 to 20 times what is used today), not in time. Queries with + or * enumerate paths by design and are not judged.",
 technique="runtime monitoring: line-event counter on the running library against a bound in nodes and edges, with a reference model of the results")

prop("C48", "Data crosses between the notebook and visualisations unchanged",
 "Whatever a visualisation is sent - a value, a notebook variable, a graphframe shown with %cct - arrives on the page as the documented text of that value, and what it sends back or what is fetched arrives in the notebook unchanged, whatever quotes, backslashes, line breaks or scripts it contains. A variable bound both ways is sent again, with each member's own converter, after every cell that assigns it, a change on the page reaches the variable and reruns exactly the other bound cells, no cell makes the bookkeeping fail, and several visualisations on a page do not share element ids or leave files behind.",
 ["inputs", "histories"], "all values, all sequences of loads, bindings, cells (valid or not), page changes and fetches",
 "The tests of this part are disabled and would need a browser; they bind two literal strings.",
 ["hatchet/external/roundtrip/roundtrip/manager.py", "hatchet/external/roundtrip/roundtrip/roundtrip.js", "hatchet/vis/loader.py"], [("generated scripts", "Bridge.pass_to_js, retrieve_from_js"), ("watched variables", "RoundTrip.var_to_js, the post_run_cell callback"), ("page side", "roundtrip.js proxy"), ("magics", "hatchet/vis/loader.py CCT")],
 ["RoundTrip.data_to_js / var_to_js / fetch_data", "window.Roundtrip", "%cct, %cct_fetch_query"],
 "The shell is a real IPython shell and the page Node running the library's own JavaScript, with the notebook's JavaScript API replaced by a recording stand-in; the bundled visualisations themselves are not run.",
 technique="runtime monitoring: recorded histories of a real IPython shell and the library's JavaScript under Node, against the value last sent")
prop("C49", "The tree visualisation shows the graph and hands back a query for what it shows",
 "For every graphframe shown with %cct and every sequence of collapsing and expanding subtrees, selecting nodes, changing the metric, keeping a range of values and composing nodes into their parents, the tree visualisation shows exactly the roots, the nodes with a value of the chosen metric (in the range, and not 0) and the nodes above them, changed by what the user collapsed, expanded or composed, and every node that is not shown is in one group below its parent. The query it hands back is one filter() accepts as fetched, and selects exactly the nodes on the graph's paths to what is shown - a group stands for one of its members - without those composed away; the one handed back before any action selects everything.",
 ["inputs", "histories"], "all graphs (shared nodes, several roots), metrics and sequences of actions",
 "The repository has no test of the visualisation.",
 ["hatchet/vis/scripts/cct/cct_model.js", "hatchet/vis/scripts/cct/cct_repr.js", "hatchet/vis/static/cct_bundle.js", "hatchet/vis/loader.py", "hatchet/graphframe.py"], [("snapshot query", "cct_model.js storeSnapshotQuery"), ("pruning", "cct_repr.js pruneTree, _pruningVisitor, _buildDummyHolder"), ("collapsing and composing", "cct_model.js handleDoubleClick, handleNodeComposition"), ("tree on the page", "GraphFrame.to_literal"), ("fetching", "loader.py cct_fetch_query, RoundTrip.fetch_data")],
 ["events of the visualisation's controller", "%cct, %cct_fetch_query, GraphFrame.filter"],
 "The visualisation's model and controller run in Node, from the bundle (which is entered by catching the controller it builds) and from the sources (with the d3 functions they use replaced by small stand-ins); drawing is not run. After a node was composed only more composing is done, as the library warns about the rest.",
 technique="runtime monitoring: recorded histories of the visualisation's own code under Node against a model of what is shown, and of its queries against filter()")
prop("C50", "Results reflect what a graphframe holds when they are asked for",
 "An operation's result follows from the graph, dataframe, metric lists, default metric and metadata as they are when it is called: after a user edits any of them - values, cells, names, columns, lists, metadata, frames, added and removed nodes and edges (numbered again), or another graph and dataframe altogether - every operation, export and query answers as for a graphframe newly built with that content, whatever was asked before and with whichever query or function objects.",
 ["inputs", "histories"], "all sequences of questions and user edits",
 "The tests ask each graphframe once; a value remembered from an earlier call only shows when the graphframe was edited in between.",
 [GF, GR, ND, "hatchet/query/engine.py", "hatchet/query/query.py", "hatchet/query/object_dialect.py", "hatchet/query/string_dialect.py", "hatchet/external/console.py"], [("matches of a query", "QueryEngine.search_cache, reset_cache"), ("call paths", "Node.path, Node.paths"), ("numbers and length", "Graph.enumerate_traverse, len(Graph), Graph.is_tree"), ("reports", "GraphFrame.tree, to_dot, to_flamegraph, to_literal, to_dict, to_json, show_metric_columns")],
 ["all public operations of GraphFrame, Graph and Node", "query objects used again"],
 "Edits are those a user makes on public attributes; after an edit of the graph its nodes are numbered again, as the library's own readers do, and the dataframe is made for them.",
 technique="runtime monitoring: recorded histories of questions and edits, each answer compared with a newly built graphframe's")
