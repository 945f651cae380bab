#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: one source for what is specified and what is claimed."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "src/graph_impl/graph_map/graph.rs"
N = "src/graph_impl/graph_map/node.rs"
E = "src/graph_impl/graph_map/edge.rs"
S = "src/graph_impl/static_graph/graph.rs"
V = "src/graph_impl/static_graph/edge_vec.rs"
I = "src/graph_impl/static_graph/static_edge_iter.rs"
MM = "src/graph_impl/static_graph/mmap/graph_mmap.rs"
EM = "src/graph_impl/static_graph/mmap/edge_vec_mmap.rs"
GG = "src/generic/graph.rs"
P = []

def p(id, title, statement, over, quant, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None)))

p("C01", "A graph map holds exactly what was inserted",
  "After any sequence of add_node and add_edge on a directed or undirected graph map, a node or edge is found exactly if it (or, for a node, an edge at it) was added, and it carries the label it was given last. add_node and add_edge return true exactly when the node or edge was not there before; an undirected edge is the same edge from both ends.",
  ["histories", "inputs"], "every sequence of insertions, every id and label, directed and undirected",
  "The tests insert a handful of fixed nodes and edges; repeated insertions, self-loops, reversed repeats and relabelling interact in ways only all histories settle.",
  [G, N, GG], [("add_node, add_edge", G), ("NodeMap::add_edge, add_in_edge", N)],
  [("node_map", "id to node with its label, neighbours and in-neighbours", G)])
p("C02", "Removal takes out exactly what is named",
  "remove_node takes out that node and every edge at it, remove_edge that edge, and nothing else changes: every other node, edge and label stays as it was. What is removed is returned with its id and label; removing what is not there returns none and changes nothing.",
  ["histories", "inputs"], "every history of insertions and removals, self-loops included, directed and undirected",
  "Tests remove one or two fixed nodes; dangling entries appear only for particular mixes of in-edges, out-edges, self-loops and re-insertions.",
  [G, N], [("remove_node, remove_edge", G), ("NodeMap::remove_edge, remove_in_edge", N)])
p("C03", "All views of a graph map's adjacency agree",
  "For every graph map, neighbors, neighbors_iter, degree, has_edge, get_edge, edge_indices and edges describe the same set of edges, each exactly once (an undirected edge once, whichever way it was added); neighbours come in ascending order. For a directed graph in_neighbors, in_neighbors_iter and in_degree are exactly the reverse of the outgoing view.",
  ["inputs", "histories"], "every graph that can be built, directed and undirected, with self-loops",
  "Tests compare single calls on fixed graphs; in- and out-adjacency are separate structures that must stay mirror images for every graph.",
  [G, N, GG], [("neighbors, neighbors_iter, degree, edges, edge_indices, in_neighbors", G), ("non_less_neighbors_iter", N)])
p("C04", "Counts are exact after every history",
  "After any history of insertions, removals and label updates node_count and edge_count are the numbers of nodes and edges the graph lists, and max_seen_id is the largest id ever added. from_edges and refine_edge_count give the number of distinct edges.",
  ["histories", "inputs"], "every history of mutations, repeated insertions and removals of what is missing included",
  "The edge count is a counter maintained apart from the edges; tests check it after short, duplicate-free histories only.",
  [G], [("add_edge, remove_edge, remove_node, refine_edge_count", G)], [("num_of_edges", "number of edges", G), ("max_id", "largest id seen", G)])
p("C05", "Labels are stored, looked up, updated and counted faithfully",
  "For every history, get_node_label and get_edge_label give the label given last, the node and edge label maps hold each label ever used once with the id the nodes and edges carry, update_node_label and update_edge_label change exactly the label of what exists and report whether it does, and the label counters count how often each label is in use.",
  ["histories", "inputs"], "every history of labelled insertions, updates and removals; every label; graphs made with an existing label map included",
  "Label ids are shared indirections: an error shows only with several labels, equal labels on different elements, and updates after use.",
  [G, GG, "src/map/set_map.rs"], [("add_node_label, add_edge_label, update_node_label, update_edge_label", G), ("get_node_label_counter, get_edge_label_counter", GG)])
p("C06", "Mutable views read and write the same graph",
  "get_node_mut, get_edge_mut, nodes_mut and edges_mut give exactly the nodes and edges the graph has, each once, with their ids and labels; a label id set through such a view is the label id every later look-up of that node or edge shows, from either end of an undirected edge, and nothing else changes.",
  ["inputs", "histories"], "every graph, every element changed, every label id",
  "Tests set one label through a view and read it back the same way; they never look from the other end or at what must not change.",
  [G, N, E], [("get_node_mut, get_edge_mut, nodes_mut, edges_mut", G), ("neighbors_iter_mut, non_less_neighbors_iter_mut", N)])
p("C07", "Equality of graphs is equality of content, and hashes follow it",
  "Two graphs (graph maps, static graphs or boxed general graphs) are equal exactly if they have the same nodes, edges and labels, however they were built and whatever ids their labels have; equality is symmetric, and equal graphs hash equally. A cloned graph equals its original.",
  ["inputs", "histories"], "every pair of graphs",
  "Tests compare a few equal pairs and hardly any unequal ones; a missing comparison direction shows only for pairs where one graph contains the other.",
  [G, S, GG], [("PartialEq, Hash", G), ("PartialEq, Hash", S), ("equal, Clone and Hash of Box<GeneralGraph>", GG)])
p("C08", "into_static keeps the graph",
  "For every graph map with node ids 0..n-1, into_static gives a static graph with the same nodes, edges, node labels, edge labels, neighbours, in-neighbours, degrees and counts.",
  ["inputs", "histories"], "every graph map with ids 0..n-1, directed and undirected, labelled, partly labelled or not, the empty graph included",
  "The conversion builds offset, edge and label arrays that must line up for every shape; tests convert a few fixed graphs.",
  [G, S, V], [("into_static", G), ("from_raw", S)])
p("C09", "Reordering ids renames, and nothing else",
  "reorder_id gives a graph that is the original with node ids renamed to 0..n-1 in order of non-decreasing degree and, if asked, label ids renumbered in order of non-decreasing frequency; find_new_node_id and get_original_node_id are inverse to each other, describe the renaming and, when nodes are renamed, know no id but those (they panic), and nodes, edges, labels and counts correspond under it. reorder_id_with does the same for given maps.",
  ["inputs"], "every graph, every choice of what is reordered",
  "The isomorphism has to hold for all graphs and all eight option combinations, with ties, unlabelled and isolated nodes; tests look at one graph.",
  [G], [("reorder_id, reorder_id_with, reorder_label_map, ReorderResult", G)])
p("C10", "Compressed edge arrays are read correctly",
  "For every well-formed pair of offset and edge arrays, and label array if any, an EdgeVec finds an edge, its index and its label exactly if the array holds it, gives the neighbours and degree of every node, and answers no for nodes outside its range.",
  ["inputs"], "all well-formed arrays and all queries, out-of-range ids included",
  "Off-by-one errors at first, last and empty rows need particular shapes; tests query one or two fixed arrays.",
  [V], [("EdgeVecTrait: neighbors, degree, find_edge_index, find_edge_label_id, has_edge", V)])
p("C11", "Static graphs answer and iterate consistently",
  "For every static graph built from well-formed arrays, look-ups, neighbours, degrees, counts and the node and edge iterators describe the same nodes, edges and labels; edges are listed once each (an undirected one once), with their own labels. Dropping labels drops labels and nothing else.",
  ["inputs"], "all well-formed arrays, directed and undirected, labelled or not, self-loops included",
  "Iteration order, label alignment and skipping of reversed duplicates depend on the shape of every row; tests iterate a few fixed graphs.",
  [S, V, I, "src/graph_impl/static_graph/node.rs"], [("GraphTrait for TypedStaticGraph", S), ("StaticEdgeIndexIter", I)])
p("C12", "Every implementation treats what is missing alike",
  "On graph maps, static graphs and mapped graphs alike, asking for a node or edge that is not there (unknown start, target or both) gives none or false and no label, and asking for the neighbours or degree of an unknown node panics; nothing is ever read out of range.",
  ["inputs"], "every graph and every id, in all three implementations, the empty graph included",
  "Tests ask for what exists; each implementation has its own bounds logic.",
  [G, S, MM, V], [("get_node, get_edge, has_node, has_edge, neighbors, degree", G), ("the same", S), ("the same", MM)])
p("C13", "A static graph survives dump and map",
  "Mapping the files dump_mmap wrote gives a graph with the same nodes, edges, labels, label maps, neighbours, in-neighbours, counts and direction as the graph dumped, also if the files of an earlier dump were there before.",
  ["inputs", "histories"], "every static graph, directed and undirected, labelled or not, without edges; sequences of dumps to one prefix",
  "Five files have to be consistent with each other; tests round-trip one graph into a fresh place.",
  [S, V, MM, EM, "src/io/mmap.rs"], [("dump_mmap", S), ("dump_mmap", V), ("StaticGraphMmap::new", MM), ("EdgeVecMmap::new", EM)])
p("C14", "A typed memory map shows exactly the values dumped",
  "Mapping a file that dump wrote gives back exactly the values dumped, in full and by range, for any element type and number of elements; a range outside the values panics instead of giving access to other memory.",
  ["inputs"], "every slice of values, every range",
  "Unsafe pointer arithmetic: an error reads other memory without any visible failure in a test that uses valid ranges only.",
  ["src/io/mmap.rs"], [("TypedMemoryMap, dump, typed_as_byte_slice", "src/io/mmap.rs")])
p("C15", "Exports either succeed completely or report failure",
  "If writing a dump or an export fails anywhere, with a full disk or a failing file at any byte, the call returns an error; when it returns Ok, everything was written. Short and interrupted writes change nothing in the result.",
  ["fault_sequences", "inputs"], "every point where a write fails, is short or is interrupted",
  "Tests run on a disk that never fails.",
  ["src/io/mmap.rs", "src/io/serde.rs", S, V], [("dump", "src/io/mmap.rs"), ("Serializer::export", "src/io/serde.rs"), ("dump_mmap", S)])
p("C16", "Breadth-first search visits every node once, level by level",
  "From any start node Bfs yields first the start, then the nodes reachable from it in order of non-decreasing distance, then the nodes of the rest of the graph in the same manner, each node of the graph exactly once; without a start it picks one itself. An unknown start or an empty graph panics.",
  ["inputs", "histories"], "every graph (also after removals), every start node, every graph implementation",
  "Tests walk a few fixed paths; order and completeness must hold for all graphs, including ids with gaps.",
  ["src/algorithm/bfs.rs"], [("Bfs::new, next, next_unvisited_node", "src/algorithm/bfs.rs")])
p("C17", "Depth-first search visits every node once along edges",
  "From any start node Dfs yields first the start and all nodes reachable from it before any other node, each node of the graph exactly once; each node but the first of a component is adjacent to one yielded earlier. reset starts over; an unknown start or an empty graph panics.",
  ["inputs", "histories"], "every graph (also after removals), every start node",
  "Tests walk a few fixed paths.",
  ["src/algorithm/dfs.rs"], [("Dfs::new, next, move_to, reset, next_unvisited_node", "src/algorithm/dfs.rs")])
p("C18", "Connected components are exactly the components",
  "After ConnComp::new, or after feeding edges one by one, two nodes are connected, have the same root and appear in each other's component exactly if a path joins them (edge direction ignored), and get_count is the number of components, nodes without edges counting as components. Nodes that are not there have no root and no component.",
  ["inputs", "histories"], "every graph, every order of edges, every query sequence (queries compress paths)",
  "Union-find with path halving goes wrong only for certain edge orders and interleaved queries.",
  ["src/algorithm/conn_comp.rs"], [("process_new_edge, get_root, get_connected_nodes", "src/algorithm/conn_comp.rs")],
  [("parent_ref", "node to parent", "src/algorithm/conn_comp.rs")])
p("C19", "Connected subgraphs partition the graph",
  "ConnSubgraph yields one graph per component: every node and edge of the graph, with its label, is in exactly one of them, each is connected and of the same kind as the graph, and nodes of different components are in different ones.",
  ["inputs"], "every graph, directed and undirected, isolated nodes and self-loops included",
  "Tests use one two-component graph.",
  ["src/algorithm/conn_subgraphs.rs", "src/algorithm/conn_comp.rs"], [("process_nodes, process_edges, root_to_subgraph", "src/algorithm/conn_subgraphs.rs")])
p("C20", "Union holds what either graph holds",
  "The union of two graphs (by function or by +, typed, boxed or by reference) has exactly the nodes and edges that are in either, with the second graph's label where both have the element, the kind of the first graph, and exact counts; the operands are unchanged.",
  ["inputs"], "every pair of graphs, overlapping, disjoint or empty, labelled or not",
  "Tests unite two fixed graphs per operator; overlap and label precedence vary over all pairs.",
  ["src/algorithm/graph_union.rs"], [("add_graph!, graph_union, Add", "src/algorithm/graph_union.rs")])
p("C21", "Difference holds what only the first graph holds",
  "The difference of two graphs (by function or by -, typed, boxed or by reference) has exactly the nodes of the first that are not in the second and the edges of the first between them that are not in the second, with the first graph's labels, its kind, and exact counts.",
  ["inputs"], "every pair of graphs, overlapping, disjoint or empty, with self-loops",
  "Tests subtract two fixed graphs per operator.",
  ["src/algorithm/graph_minus.rs"], [("sub_graph!, graph_minus, Sub", "src/algorithm/graph_minus.rs")])
p("C22", "A SetMap is a bijection between items and indices",
  "For every history a SetMap holds distinct items at indices 0..len-1 in order of first insertion: add_item returns the index of the item whether new or not, get_item and find_index are inverse, contains, items, items_vec and len agree with them, and pop_item removes the last. Maps with the same items at the same indices are equal and hash equally, and others are not equal.",
  ["histories", "inputs"], "every sequence of adds and pops, every item; every way of constructing a map",
  "Tests add two or three fixed items.",
  ["src/map/set_map.rs", "src/generic/map.rs"], [("SetMap", "src/map/set_map.rs")])
p("C23", "A VecMap is a bijection between items and indices",
  "For every history a VecMap built by adding items holds distinct items at indices 0..len-1 in order of first insertion: add_item returns the index of the item whether new or not, get_item and find_index are inverse, contains, items, items_vec and len agree with them, and pop_item removes the last. Converting between VecMap and SetMap keeps items and indices.",
  ["histories", "inputs"], "every sequence of adds and pops, every item; every way of constructing a map",
  "Tests add two or three fixed items.",
  ["src/map/vec_map.rs", "src/generic/map.rs"], [("VecMap", "src/map/vec_map.rs")])
p("C24", "Serialisation round-trips",
  "Importing what was exported gives back an equal value: graph maps, static graphs, label maps and reorder results keep nodes, edges, labels, label ids, counts and largest id. A truncated file, or one that cannot be read to its end, gives an error, never a panic or a partial value.",
  ["inputs", "crash_points"], "every graph and map; every prefix of the file",
  "Tests round-trip one fixed graph per type and never a damaged file.",
  ["src/io/serde.rs", G, S, "src/map/set_map.rs"], [("Serializer::export, Deserializer::import", "src/io/serde.rs"), ("derived Serialize and Deserialize", G)])
p("C25", "A graph written to CSV reads back the same",
  "For every graph, writing it to CSV files and reading them with the same separator gives a graph with the same nodes, edges and labels, whatever characters the labels contain (an empty label aside), directed or undirected.",
  ["inputs"], "every graph, every label text, every supported separator",
  "Quoting, separators and missing labels meet only for particular label texts; tests write plain words and numbers.",
  ["src/io/csv/writer.rs", "src/io/csv/reader.rs", "src/io/csv/record.rs"], [("CSVWriter::write", "src/io/csv/writer.rs"), ("CSVReader::read", "src/io/csv/reader.rs")])
p("C26", "CSV rows are parsed or skipped one by one",
  "For every CSV file, with or without headers, flexible or not, the reader adds exactly the rows it can parse, with their ids and labels (an empty or missing label is no label), skips rows it cannot, and never panics; node_iter and edge_iter yield exactly the rows read would add.",
  ["inputs"], "every file content, header choice and flexibility",
  "Malformed rows, wrong field counts and odd bytes are inputs tests do not cover.",
  ["src/io/csv/reader.rs", "src/io/csv/record.rs"], [("CSVReader::read, node_iter, edge_iter", "src/io/csv/reader.rs"), ("Deserialize for NodeRecord, EdgeRecord", "src/io/csv/record.rs")])
p("C27", "CSV writing and reading report failure",
  "If writing either CSV file fails at any byte the writer returns an error; when it returns Ok both files are complete. Reading a missing file returns an error, and so does reading one of which a part cannot be read; when reading returns Ok all rows were seen.",
  ["fault_sequences", "inputs"], "every point where a write or read fails or is short",
  "Tests run on a disk that never fails.",
  ["src/io/csv/writer.rs", "src/io/csv/reader.rs"], [("CSVWriter::write", "src/io/csv/writer.rs")])
p("C28", "Random graphs keep their parameters for every draw",
  "Whatever the random numbers are, random_gnm_graph has exactly n nodes 0..n-1 and m distinct edges without self-loops, random_gnp_graph n nodes and only loop-free edges (none for p=0, all for p=1), labels come from the given sets (all elements labelled if the set is not empty), and parameters out of range panic.",
  ["inputs", "schedules"], "every outcome of the random number generator, every n, m, p and label set within bounds",
  "A test sees one random outcome per run.",
  ["src/graph_gen/random.rs", "src/graph_gen/helper.rs", "src/graph_gen/general.rs"], [("random_gnp_graph, random_gnm_graph", "src/graph_gen/random.rs")])
p("C29", "Empty and complete graphs are what they say",
  "empty_graph has nodes 0..n-1 and no edges; complete_graph has nodes 0..n-1 and every edge between two different nodes exactly once (both ways if directed), labels coming from the given sets, all of them known to the graph.",
  ["inputs"], "every n within bounds, every label set, every outcome of the label draw",
  "Tests look at one or two sizes.",
  ["src/graph_gen/general.rs", "src/graph_gen/helper.rs"], [("empty_graph, complete_graph", "src/graph_gen/general.rs"), ("complete_edge_pairs", "src/graph_gen/helper.rs")])
p("C30", "Id types convert without loss",
  "For every id type (() apart, which has one id), converting a number up to the type's maximum to an id and back gives the number, conversion keeps order and equality, max_usize is the largest number that converts, and increment gives the next id or panics at the last one.",
  ["inputs"], "every number and every id of every id type",
  "A conversion through a narrower type is wrong only for large values.",
  ["src/generic/dtype.rs"], [("impl_id_type!", "src/generic/dtype.rs")])
p("C31", "The LDBC reader builds the graph the files describe",
  "Reading a directory gives one node per distinct entity in the node files, labelled with its label, with consecutive ids from 0, and, for every row of the relation files, an edge between the entities it names with the relation's label; entities that only relations name become nodes labelled with their kind; the same entity in several files or rows is one node, the same relation of two entities one edge. Rows that lack fields are errors; other files are ignored.",
  ["inputs"], "every content of the node and relation files",
  "There is one sample directory; id assignment depends on order and repetition of rows.",
  ["src/io/ldbc/scheme.rs", "src/io/ldbc/node.rs", "src/io/ldbc/relation.rs"], [("Scheme::from_path", "src/io/ldbc/scheme.rs"), ("Node::add_node", "src/io/ldbc/node.rs"), ("Relation::add_edge", "src/io/ldbc/relation.rs")])
p("C32", "A handle tells what it stands for",
  "Every handle of a node or edge (looked up, to change, taken out, static or not) says whether it stands for something; if so it gives the id or ends it was asked for by and the label, unwraps to the object it holds, and a node's own adjacency (neighbours, those not less, in-neighbours, edges with labels, lookups, changes) is that of the graph; if not, unwrapping and asking for its id or ends panics. A graph seen through another of its traits is the same graph; GraphImpl names parse in any case, others are refused.",
  ["inputs", "histories"], "every node or edge asked for, every graph within bounds, every sequence of changes to a node's own adjacency",
  "Handles are thin and have many kinds; which kind a call returns depends on implementation and contents.",
  ["src/generic/node.rs", "src/generic/edge.rs", "src/graph_impl/graph_map/node.rs", "src/graph_impl/graph_map/edge.rs", "src/graph_impl/static_graph/node.rs", "src/graph_impl/mod.rs"], [("NodeType, EdgeType and their Mut and Owned kinds", "src/generic/node.rs"), ("NodeMapTrait, MutNodeMapTrait", "src/graph_impl/graph_map/node.rs"), ("GraphImpl::from_str", "src/graph_impl/mod.rs")])
p("C33", "Iterators say truly how much is left",
  "Every iterator the crate gives (node and edge ids, nodes, edges, neighbours, in-neighbours, labels, map items, mutable ones, searches, CSV rows, for every implementation) gives exactly as many things as there are; at every point of it, size_hint bounds what is left from below and above, and count, nth and last agree with stepping one by one.",
  ["inputs", "histories"], "every graph and map within bounds, every point of every iterator",
  "Iterators are hand-written or wrap others and forward only some methods; tests collect them from the start.",
  ["src/generic/iter.rs", "src/graph_impl/static_graph/static_edge_iter.rs", "src/graph_impl/graph_map/graph.rs", "src/graph_impl/static_graph/graph.rs", "src/graph_impl/static_graph/mmap/graph_mmap.rs", "src/map/set_map.rs", "src/algorithm/bfs.rs", "src/algorithm/dfs.rs"], [("Iter", "src/generic/iter.rs"), ("StaticEdgeIndexIter", "src/graph_impl/static_graph/static_edge_iter.rs"), ("Iterator for Bfs, Dfs", "src/algorithm/bfs.rs")])
p("C34", "A derived graph can be changed like any other",
  "A graph map that came out of clone, boxed clone, union, difference, import, CSV, reordering, connected-subgraph enumeration, a generator, given label maps or an edge list holds what it should, and goes on behaving like a graph built by hand: whatever is then added, removed or relabelled, return values, counts, labels, neighbours, in-neighbours and the largest id are those of the resulting graph, and the graph it was derived from does not change.",
  ["histories", "inputs"], "every graph within bounds, every source, every pair of later changes",
  "Each operation fills the inner fields itself; a wrong counter or a pruned label map shows only when the result is used further.",
  [G, "src/algorithm/graph_union.rs", "src/algorithm/graph_minus.rs", "src/algorithm/conn_subgraphs.rs", "src/io/serde.rs", "src/io/csv/reader.rs", "src/graph_gen/general.rs"], [("reorder_id, with_label_map, from_edges", G), ("graph_union", "src/algorithm/graph_union.rs"), ("ConnSubgraph", "src/algorithm/conn_subgraphs.rs")])
p("C35", "Chains of conversions keep the graph",
  "Whatever chain of conversions a graph map goes through (clone, export and import, CSV, union with an empty graph or itself, difference with an empty graph, reordering of labels) and however it ends (graph map, static graph, imported static graph, mapped dump), the result has the same nodes, edges, labels, counts, neighbours and largest id, equals the original where the types allow comparing, and feeds a hasher the same.",
  ["inputs", "histories"], "every graph within bounds, every chain of two conversions and an end",
  "Each conversion is tested alone; one may leave behind inner state (label numbering, order, stale counters) that the next one trips over.",
  [G, "src/io/serde.rs", "src/io/csv/writer.rs", "src/graph_impl/static_graph/graph.rs", "src/graph_impl/static_graph/mmap/graph_mmap.rs", "src/algorithm/graph_union.rs", "src/algorithm/graph_minus.rs"], [("into_static, reorder_id", G), ("dump_mmap", "src/graph_impl/static_graph/graph.rs")])

p("C36", "Ids of any width behave alike",
  "Whatever type numbers the nodes (u8, u16, u32, usize) and whatever type numbers the labels, a graph behaves the same: histories of changes, look-ups, orders of neighbours, counts, the largest id, searches, components, union, difference, reordering, clone, export and import, static and mapped graphs all give what they give for small ids, also for ids at the far end of the type (a search needs a bit of memory for each id up to the largest) and for more nodes, edges and labels than a byte can number.",
  ["inputs", "histories"], "any ids of any width, and graphs of hundreds of nodes and labels",
  "Tests use small u32 ids; an index or label narrowed on the way shows only beyond 255, 65535 or 2^32.",
  [G, "src/generic/dtype.rs", "src/graph_impl/static_graph/graph.rs"], [("IdType, and everything generic over it", "src/generic/dtype.rs"), ("TypedGraphMap", G)])
TECH = "symbolic execution of the crate's LLVM IR (own executor) with Z3, every path within the bounds; counterexamples replayed natively"
NOTE = ("The compiled crate and its dependencies are executed symbolically from LLVM IR regenerated from /repo on every run; every assertion is decided "
        "by Z3 for all inputs within the bounds listed in the evidence. Trusted: rustc's front half, the executor and its models of memory and files, "
        "stubs for hash functions (constant) and random draws (arbitrary). ")
NA = {}

def main():
    with open(ROOT + "/properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in P:
        f = "%s/harness/src/%s.rs" % (ROOT, x["id"].lower())
        if os.path.exists(f) and x["id"] not in NA:
            b = "; ".join(m.group(1).strip() for m in re.finditer(r"^//! bound: (.*)$", open(f).read(), re.M))
            checks.append(dict(property=x["id"], quick_cmd="bin/check %s quick" % x["id"], thorough_cmd="bin/check %s thorough" % x["id"],
                               evidence_file="evidence/%s.json" % x["id"], technique=TECH, level="model_checking", level_note=NOTE + "Bounds: " + b + "."))
        else:
            na.append(dict(property=x["id"], reason=NA.get(x["id"], "no check built yet")))
    json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
                   notes="No hooks: harnesses use the crate's public API. Fixes in /repo are listed in known_findings.json."),
              open(ROOT + "/MANIFEST.json", "w"), indent=1)

main()
