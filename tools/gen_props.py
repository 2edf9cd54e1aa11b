"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state, obs):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": state, "meaning": "what the property is about", "where": ", ".join(files)}],
                    "observe_at": [obs], "hook_needed": None},
    })


prop("P01", "A traversal yields every reachable node exactly once, in a fixed order",
     "Traversing a graph or a node yields exactly the nodes reachable from its roots (or from that node), each one once, shared nodes and cycles included. "
     "A node comes before (pre-order) or after (post-order) everything that is first reached through it, and siblings are taken in the order of their frames (ties by identity) or, for a node-order traversal, of their numbers, so two traversals of an unchanged graph give the same sequence. "
     "A visit counter handed in ends up with the number of times each node was reached, and a graph is called a tree exactly when it has one root and every node was reached once.",
     ["inputs"], "all finite graphs (any number of roots, shared nodes, cycles, equal frames), both orders, both sibling orders, every requested attribute list, every initial visit counter",
     "A test walks one or two hand-written graphs; the claim is about every graph shape, including shared nodes reached along different paths and the interplay of the shared visit counter over several roots.",
     ["hatchet/node.py", "hatchet/graph.py"],
     [("Node.traverse / Node.node_order_traverse", "hatchet/node.py"), ("Graph.traverse / Graph.node_order_traverse / is_tree / __len__", "hatchet/graph.py")],
     "children lists, frames, node numbers, the visit counter", "the sequence yielded, the visit counter, is_tree(), len(graph)")

prop("P02", "Numbering gives nodes 0..n-1 in traversal order, and depths count edges",
     "Enumerating a graph gives its n nodes the numbers 0 to n-1 in the order a traversal yields them (by frame, or by the previous node numbers when the graph keeps an explicit node order), so that no two nodes share a number. "
     "Every root gets depth 0 and every other node one more than the depth of one of its parents, so in a tree the depth is the number of edges from the root. "
     "Nothing else about the graph changes.",
     ["inputs"], "all finite acyclic graphs whose roots have no parents, any previous numbering, with and without an explicit node order",
     "Equality, hashing and every table lookup of nodes rest on the numbers being distinct for every graph shape; tests compare the numbers of a few small examples.",
     ["hatchet/graph.py"],
     [("Graph.enumerate_traverse / enumerate_depth", "hatchet/graph.py")],
     "node numbers and depths", "node numbers and depths after enumeration")

prop("P03", "Frames and nodes compare, order and hash consistently",
     "Two frames are equal exactly when they have the same attributes with the same values, whatever order the attributes were given in; equal frames hash alike, and on frames with mutually comparable values the order is total, transitive and agrees with equality. "
     "Nodes compare, order and hash by their number. "
     "A copied frame is equal to the original and shares no state with it, and a frame without a type gets the default type.",
     ["inputs"], "all attribute dictionaries (any size, any insertion order, values of mutually comparable types per key), all node numbers",
     "These are laws over all pairs and triples of values; a test picks pairs.",
     ["hatchet/frame.py", "hatchet/node.py"],
     [("Frame.__init__/__eq__/__lt__/__gt__/__hash__/tuple_repr/copy/get/values", "hatchet/frame.py"), ("Node.__eq__/__lt__/__gt__/__hash__", "hatchet/node.py")],
     "frame attributes, the cached attribute tuple, node numbers", "results of comparisons and hash()")

prop("P04", "A node's call paths are exactly the root-to-node paths",
     "Asking a node for its call paths gives one tuple for every distinct chain of parent edges from a root down to that node, each tuple starting at a root, ending at the node and linked by edges, and no others. "
     "Asking for the single call path of a node gives that tuple when there is exactly one and raises an error when there are more. "
     "Neither changes the graph.",
     ["inputs"], "all finite acyclic graphs and all of their nodes",
     "The set of paths grows exponentially with sharing; the handful of small graphs in the tests does not cover the combinations.",
     ["hatchet/node.py"],
     [("Node.paths / Node.path", "hatchet/node.py")],
     "parent lists", "the returned list of tuples")

prop("P05", "Copies are isomorphic to the original and independent of it",
     "Copying a graph gives entirely new nodes in one-to-one correspondence with the old ones, preserving frames, roots, the order of children and parents, and an explicit node order; the mapping handed in relates exactly the corresponding nodes. "
     "A shallow copy of a graphframe shares the graph but not the table, a deep copy shares neither, its table names the new nodes, and both keep metrics, defaults and metadata. "
     "Later changes to a copy (in the case of a shallow one, to its table) leave the original unchanged.",
     ["inputs"], "all enumerated graphs (shared nodes, several roots, equal frames, explicit node order) and tables over them, single- or multi-indexed",
     "Correspondence of all edges and absence of aliasing must hold for every graph; tests compare a few copies for equality.",
     ["hatchet/graph.py", "hatchet/node.py", "hatchet/frame.py", "hatchet/graphframe.py"],
     [("Graph.copy", "hatchet/graph.py"), ("Node.copy / Frame.copy", "hatchet/node.py"), ("GraphFrame.copy / shallow_copy / deepcopy", "hatchet/graphframe.py")],
     "nodes, edges, frames, tables", "the copied graph and graphframe, and the original after the copy is changed")

prop("P06", "Graphs compare equal exactly when they have the same structure",
     "Two graphs whose siblings have distinct frames compare equal exactly when their nodes can be put in one-to-one correspondence so that roots, frames and edges correspond; inequality is the negation. "
     "The comparison is reflexive and symmetric, holds between a graph and its copy, and does not depend on the order in which roots or children are listed. "
     "It changes neither graph.",
     ["inputs"], "all pairs of enumerated finite graphs with distinct sibling frames, including graphs with shared nodes",
     "A wrong answer needs two particular graphs, for example ones that differ only in which shared node an edge leads to; tests compare a few trees.",
     ["hatchet/graph.py", "hatchet/node.py"],
     [("Graph.__eq__ / __ne__", "hatchet/graph.py"), ("Node.dag_equal", "hatchet/node.py")],
     "nodes, edges, frames", "result of == and !=")

prop("P07", "The union of two graphs has the nodes and edges of both and nothing more",
     "The union is a new graph with new nodes; every node of either operand is mapped to one node of the union with an equal frame, every edge and root of either operand is mapped to an edge or root of the union, and every edge and root of the union comes from one. "
     "Child and parent lists of the union mirror each other without duplicates, and for operand trees with distinct sibling frames the call paths of the union are exactly the call paths of the two operands, each once. "
     "Neither operand is changed.",
     ["inputs"], "all pairs of finite acyclic graphs with distinct sibling frames; the statement on call paths for trees",
     "Whether an edge is lost, doubled or invented depends on how shared nodes of both operands line up; tests unite a few fixed graphs.",
     ["hatchet/graph.py", "hatchet/graphframe.py"],
     [("Graph.union (_merge, make_node, connect)", "hatchet/graph.py"), ("GraphFrame.unify", "hatchet/graphframe.py")],
     "nodes, edges, the mapping from old to new nodes", "the union graph, the mapping and the operands")

prop("P08", "Squashing keeps exactly the rows kept and rewires around dropped nodes",
     "Squashing a filtered graphframe gives a new graph with one node per kept node, in which one kept node is a child of another exactly when the original graph has a chain of edges between them that passes only through dropped nodes, and a kept node is a root exactly when it can be reached from an old root through dropped nodes only; siblings (or roots) with equal frames that this creates are merged. "
     "The resulting table has a row for exactly the new nodes, carrying the values of the kept rows (summed where rows merged), inclusive metrics are recomputed from exclusive ones, and the new graph is numbered afresh. "
     "The original graphframe is not changed.",
     ["inputs"], "all trees with any set of kept nodes, and all acyclic graphs in which squashing makes no equal siblings; any metric values",
     "Every subset of kept nodes of every graph is a different rewiring; tests try a few predicates on a few graphs.",
     ["hatchet/graphframe.py", "hatchet/graph.py"],
     [("GraphFrame.squash (rewire)", "hatchet/graphframe.py"), ("Graph.normalize / find_merges / merge_nodes", "hatchet/graph.py")],
     "graph, table", "the squashed graph and table, and the original")

prop("P09", "Filtering keeps exactly the rows that satisfy the predicate",
     "Filtering a graphframe with a function keeps exactly the rows for which the function is true, with their values unchanged, whether it is evaluated serially or in parallel; filtering with a query keeps exactly the rows of the nodes the query matches. "
     "Without squashing, the result shares the unchanged graph of the original. "
     "The original graphframe is not changed.",
     ["inputs", "configurations"], "all tables (single- and multi-indexed), all row predicates, all queries, any number of worker processes",
     "Which rows survive must be right for every predicate and every way of splitting the table over worker processes.",
     ["hatchet/graphframe.py", "hatchet/query/engine.py"],
     [("GraphFrame.filter / parallel_apply", "hatchet/graphframe.py")],
     "table rows", "rows of the filtered table, rows and graph of the original")

prop("P10", "Inclusive metrics sum a metric over each node's descendants, once each",
     "Computing inclusive metrics gives every node the sum of the exclusive metric over the node and all of its distinct descendants, counting a shared descendant once, and the subtree variant gives the node's value plus the sum of its children's results. "
     "Sums skip missing values, hold per rank and thread in multi-indexed tables, work in place, and use any aggregate function supplied instead of the sum. "
     "Metrics that were not asked for are unchanged.",
     ["inputs"], "all acyclic graphs, all metric values (missing ones included), all column lists, in place or not, single- or multi-indexed",
     "Double counting shows only on particular sharing patterns and when results overwrite inputs; tests sum a few graphs.",
     ["hatchet/graphframe.py"],
     [("GraphFrame.subtree_sum / subgraph_sum / generate_inclusive_columns / update_inclusive_columns", "hatchet/graphframe.py")],
     "metric columns", "metric columns after the call")

prop("P11", "Exclusive metrics are the inclusive value minus the children's",
     "Generating exclusive metrics gives every node its inclusive value minus the sum of the inclusive values of its children, per rank and thread, and a leaf its own inclusive value. "
     "On trees, computing inclusive metrics from exclusive ones and then exclusive ones again gives back the original values. "
     "Only the generated columns are added.",
     ["inputs"], "all acyclic graphs, all inclusive metric values, single- or multi-indexed tables, any choice of columns",
     "The identity must hold at every node of every graph; tests check a few literals.",
     ["hatchet/graphframe.py"],
     [("GraphFrame.generate_exclusive_columns", "hatchet/graphframe.py")],
     "metric columns", "generated columns")

prop("P12", "Graphframe arithmetic works node by node on the united graph",
     "Adding, subtracting, multiplying or dividing two graphframes gives a graphframe on the union of their graphs whose metrics are, for a node present in both, the operation applied to the two values (the left value where that is undefined), for a node only in the left operand its value there, and for a node only in the right operand missing; a marker column tells which operand lacks a node whenever one does. "
     "The plain operators leave both operands unchanged, and the in-place ones store the same result in the left operand. "
     "Operands on the same graph combine row by row.",
     ["inputs"], "all pairs of graphframes over trees, or over acyclic graphs whose nodes the union keeps apart, with distinct sibling frames and one row per node (or per node and rank/thread), all metric values",
     "How nodes of the operands line up in the union and which are missing differs for every pair of graphs; tests use a few fixed pairs.",
     ["hatchet/graphframe.py", "hatchet/graph.py", "hatchet/cython_modules/graphframe_modules.pyx"],
     [("GraphFrame._operator / _insert_missing_rows / add / sub / div / mul / __iadd__ ...", "hatchet/graphframe.py"), ("Graph.union", "hatchet/graph.py")],
     "tables, graphs", "tables and graphs of the result and of the operands")

prop("P13", "A query returns exactly the nodes on paths that match its pattern",
     "Applying a query returns exactly the nodes that lie on some downward path matching the pattern, where each single-node element matches one node satisfying its predicate and each any-number element matches a shortest run of nodes satisfying its predicate that ends where the next element's predicate is first satisfied (or, for a last element, runs to a leaf or to the first node that fails it; a run opening the pattern may start with a node that satisfies the next element). "
     "The result contains each node once, depends only on the graph, the table and the pattern, and is the same when the engine is used again. "
     "Neither the graph nor the table is changed.",
     ["inputs", "programs"], "all acyclic graphs, all patterns without two adjacent any-number elements, all predicates",
     "Backtracking over wildcards is exercised only by particular patterns on particular graphs; tests check a few pairs.",
     ["hatchet/query/engine.py", "hatchet/query/query.py"],
     [("QueryEngine.apply / _apply_impl / _match_pattern / _match_0_or_more / _match_1 / _cache_node", "hatchet/query/engine.py"), ("Query.match / rel / relation / _add_node", "hatchet/query/query.py")],
     "graph, predicate cache, matches", "the returned nodes")

prop("P14", "Combined queries combine the sets of matched nodes",
     "The conjunction, disjunction, exclusive-or and negation of queries return exactly the intersection, union, symmetric difference and complement (in the graph) of the node sets their parts return, to any nesting depth, whichever way the combination is written (operators, classes, braces in the text form, or the older query classes). "
     "Combining queries does not change the queries combined. "
     "A pattern built step by step is the sequence of its steps, where a count stands for that many single nodes and one-or-more for a single node followed by any number.",
     ["inputs", "programs"], "all combinations of queries of any depth and of all patterns, on all graphs",
     "Nesting and operator combinations are unbounded; tests combine a few fixed queries.",
     ["hatchet/query/compound.py", "hatchet/query/query.py", "hatchet/query/compat.py", "hatchet/query/__init__.py", "hatchet/query/engine.py"],
     [("ConjunctionQuery / DisjunctionQuery / ExclusiveDisjunctionQuery / NegationQuery", "hatchet/query/compound.py"), ("combine_via_* and operators", "hatchet/query/__init__.py"), ("Query._add_node / match / rel", "hatchet/query/query.py"), ("legacy query classes", "hatchet/query/compat.py")],
     "subquery results, query patterns", "the returned nodes, the pattern of the built query")

prop("P15", "Object-form filters select exactly the nodes they describe",
     "An object-form filter is satisfied by a node exactly when every one of its entries is: a comparison text compares the numeric value as written, a number means equality, a pattern text must match a string value completely, depth and node number refer to the node, depth -1 means leaf, a list of conditions means all of them, and a missing attribute never matches. "
     "On multi-indexed data a condition holds when it holds for any or for all of the node's rows, as the mode says. "
     "An empty filter matches everything, and a condition of the wrong type for its attribute is reported as an error.",
     ["inputs", "programs"], "all filters, all row values (missing and infinite ones included), all modes",
     "The claim is about the meaning of every combination of condition kind, value and mode; tests run a few filters on a few rows.",
     ["hatchet/query/object_dialect.py"],
     [("_process_predicate (filter_series / filter_dframe), ObjectQuery.__init__", "hatchet/query/object_dialect.py")],
     "row values, node depth, number and children", "result of applying the filter")

prop("P16", "Text-form conditions mean what they say",
     "A text-form query has the pattern written in its match part, and the predicate of each named element is the and/or/not combination, in the order and with the usual precedence, of the conditions written for that name: comparisons, string tests, checks for missing, not-a-number and infinite values and for leaves each mean what they say, also on depth and node number. "
     "On multi-indexed data a condition holds when it holds for any or for all of the node's rows, as the mode says. "
     "Values are taken literally, whatever characters they contain.",
     ["inputs", "programs"], "all queries of the text grammar, all values, all rows carrying the attributes mentioned, all modes",
     "Conditions are translated into program text; whether every kind of condition, operand and mode is translated correctly is a statement about all queries.",
     ["hatchet/query/string_dialect.py"],
     [("StringQuery._build_lambdas / _parse_conditions / _parse_*; filter_check_types; parse_string_dialect", "hatchet/query/string_dialect.py")],
     "generated predicate text, row values", "the pattern and predicates of the parsed query, the nodes matched")

prop("P17", "Saving and loading a graphframe gives back an equal one",
     "Writing a graphframe as a literal, as JSON or to an HDF5 file and reading it back gives a graph equal to the original and a table with the same values for corresponding nodes; exclusive, inclusive and default metrics are kept by the file formats. "
     "Graphs read from a literal have exactly the nodes, edges and metrics the literal describes, with child and parent lists that mirror each other. "
     "Saving changes nothing in the graphframe saved.",
     ["inputs"], "all graphframes over acyclic graphs with distinct sibling frames (single- or multi-indexed for the file formats), all literals",
     "Shared nodes, several roots and multi-indexed tables combine in ways a few round trips in the tests do not reach.",
     ["hatchet/graphframe.py", "hatchet/readers/dataframe_reader.py", "hatchet/writers"],
     [("GraphFrame.from_literal / to_literal / to_json / from_json / from_hdf / to_hdf", "hatchet/graphframe.py"), ("DataframeReader / HDF5 reader / writer", "hatchet/readers")],
     "graph and table", "the graphframe read back")

prop("P18", "Rendered trees, dot graphs and flame graphs show the whole graph faithfully",
     "The tree rendering shows every node up to the requested depth, once under each of its parents (expanding it at the first), in node-number order, with its own name, metric value and presence marker, and coloured by the band of the legend its value falls in. "
     "The dot output declares each node at or above the threshold reachable through such nodes once with its name and has exactly the edges between them, and the flame-graph output of a tree has one line per node with its call path and rounded metric. "
     "Rendering changes nothing and is repeatable.",
     ["inputs", "configurations"], "all graphs (trees for flame graphs), finite metric values and rendering options",
     "Missing or repeated nodes show only for particular shapes, depths and thresholds; tests look for a few substrings.",
     ["hatchet/external/console.py", "hatchet/util/dot.py", "hatchet/util/colormaps.py", "hatchet/graphframe.py"],
     [("ConsoleRenderer.render / render_frame / _ansi_color_for_metric", "hatchet/external/console.py"), ("trees_to_dot / to_dot", "hatchet/util/dot.py"), ("GraphFrame.to_flamegraph", "hatchet/graphframe.py"), ("ColorMaps.get_colors", "hatchet/util/colormaps.py")],
     "graph and table", "the text produced")

prop("P19", "The compiled kernels compute what their array contracts say",
     "The membership kernel marks exactly those positions whose key does not occur in the sorted second array; the marking kernel writes a one at exactly the listed positions; the subtraction kernel subtracts a child's value from its parent's at every stride and touches nothing else. "
     "None of them reads or writes outside the arrays they are given, although their bounds checks are switched off.",
     ["inputs"], "all arrays satisfying the documented preconditions (sorted second array, valid positions), all lengths",
     "Out-of-bounds accesses and off-by-one errors in unchecked compiled code show only for particular lengths and contents; tests reach them through a few graphframes.",
     ["hatchet/cython_modules/graphframe_modules.pyx", "hatchet/cython_modules/reader_modules.pyx"],
     [("insert_one_for_self_nodes / fast_not_isin / binary_search", "hatchet/cython_modules/graphframe_modules.pyx"), ("subtract_exclusive_metric_vals", "hatchet/cython_modules/reader_modules.pyx")],
     "the arrays passed in", "the arrays and results after the call")

prop("P20", "Dropping index levels aggregates each node's rows",
     "Dropping the rank and thread levels of a graphframe's index leaves one row per node whose metrics are the given aggregate of that node's rows, with other columns taken from one of them.",
     ["inputs"], "all multi-indexed tables and aggregate functions",
     "The aggregate must be right for every table shape; tests check one file.",
     ["hatchet/graphframe.py"],
     [("GraphFrame.drop_index_levels", "hatchet/graphframe.py")],
     "table", "table after the call")

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
