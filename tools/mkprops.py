#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays valid and consistent)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))
FULL=["src/input_graph.rs","src/fast_graph_builder.rs","src/node_contractor.rs","src/witness_search.rs","src/preparation_graph.rs","src/fast_graph.rs","src/path_calculator.rs","src/valid_flags.rs","src/heap_item.rs"]
p("C01","Queries return the exact shortest-path weight",
 "For every input graph and every pair of nodes, a query on the prepared graph reports the minimum total weight over all directed paths from source to target. It reports 'no path' exactly when the target cannot be reached, and the weight 0 when source and target are equal.",
 ["inputs"],"all directed graphs (any topology, any positive edge weights whose sums fit the weight type) and all source/target pairs",
 "Random graphs with weights below 100, plus five fixed maps, sample a vanishing part of the topology x weight-order space; ties, huge weights and rare witness/stall constellations are never hit systematically.",
 FULL,[("contraction with witness search","node_contractor::contract_node / WitnessSearch::find_max_weight"),("bidirectional upward search with stall-on-demand","PathCalculator::calc_path_multiple_sources_and_targets")],
 [("prepared graph","upward arcs per contraction rank, forward and backward","FastGraph")],["prepare + calc_path (public API)"])
p("C02","Returned node sequence is a real path of the reported weight",
 "Whenever a query returns a path, its node list starts at the source and ends at the target it reports, visits no node twice, every consecutive pair is joined by an edge of the input graph, and the cheapest such edges add up to exactly the reported weight (plus the initial weights of the chosen source and target, if any).",
 ["inputs"],"all graphs, all queries, including paths unpacked from nested shortcuts in either direction",
 "Tests compare node lists only on a few hand-written graphs and otherwise tolerate 10% differing node lists without checking that they are paths.",
 ["src/path_calculator.rs","src/fast_graph_builder.rs","src/fast_graph.rs","src/shortest_path.rs"],
 [("shortcut unpacking","PathCalculator::extract_nodes / unpack_fwd / unpack_bwd"),("replaced-edge ids","FastGraphBuilder::finish_contraction")],
 [("replaced edge ids","the two arcs a shortcut stands for","FastGraphEdge")],["ShortestPath::get_nodes/get_source/get_target/get_weight"])
p("C03","Multi-source/multi-target queries find the best weighted combination",
 "A query with several weighted sources and targets returns the minimum over all source/target combinations of source weight + path weight + target weight, and the reported endpoints and nodes belong to a combination attaining it. Repeated nodes count with their smallest weight, options carrying the maximum weight are ignored, and 'no path' is reported exactly when no combination is connected.",
 ["inputs"],"all graphs, all non-empty lists of weighted sources and targets (duplicates, overlaps, zero and maximal initial weights)",
 "Tests use 3 sources and 3 targets with weights below 100 on random graphs; specific orderings of initial weights relative to path weights and overlaps are sampled, not covered.",
 ["src/path_calculator.rs","src/lib.rs"],
 [("initialisation of both searches and of the meeting node","PathCalculator::calc_path_multiple_sources_and_targets")],
 [],["calc_path_multiple_sources_and_targets (free function and calculator method)"])
p("C04","Preparation with any fixed node order preserves all answers",
 "Preparing a graph with an arbitrary permutation of its node ids and any limit on the preparation effort succeeds and yields a prepared graph whose queries give exactly the shortest-path weights of that graph. An order of the wrong length is answered with an error and no prepared graph, one of the right length naming a node that does not exist is refused with a panic.",
 ["inputs","configurations"],"all graphs x all permutations of the node ids x all settled-node limits from 0 upwards",
 "Tests use orders obtained from the default preparation of the same map, and two or three hand-written ones, never adversarial orders or tiny limits.",
 ["src/fast_graph_builder.rs","src/lib.rs","src/node_contractor.rs","src/witness_search.rs"],
 [("contraction in the given order","FastGraphBuilder::run_contraction_with_order"),("length check","FastGraphBuilder::build_with_order_with_params")],
 [],["prepare_with_order / prepare_with_order_with_params + queries"])
p("C05","Tuning parameters never change query answers",
 "Whatever tuning parameters are passed to the preparation (priority factors and settled-node limits, including zero and extreme values), the reported shortest-path weights and reachability stay exact. Parameters may only influence speed and size.",
 ["inputs","configurations"],"all graphs x all parameter values",
 "Tests use the defaults and four hand-picked parameter sets on fixed maps.",
 ["src/fast_graph_builder.rs","src/node_contractor.rs","src/witness_search.rs"],
 [("limits on the witness search only ever add shortcuts","WitnessSearch::find_max_weight"),("priority computation","node_contractor::calc_relevance")],
 [],["prepare_with_params + queries"])
p("C06","A reused calculator answers like a fresh one",
 "A path calculator gives, for every query, the same result that a newly created calculator would give, whatever queries it answered before (found or not, single or multi-source, on this or another prepared graph with the same number of nodes) or refused before because their arguments were invalid, and however many queries those were.",
 ["histories","inputs"],"all sequences of queries on one calculator, including histories longer than any internal reset counter can count",
 "Tests issue 1,000 random queries per calculator and compare weights; the state left by particular pairs of queries and the reset of the per-query marker after 2^32 queries are never reached.",
 ["src/path_calculator.rs","src/valid_flags.rs"],
 [("per-query reset","heap.clear + ValidFlags::invalidate_all"),("counter wrap-around","ValidFlags::invalidate_all")],
 [("valid_flag","generation counter distinguishing current from stale per-node data","ValidFlags")],
 ["PathCalculator::calc_path, calc_path_multiple_sources_and_targets"],
 "cfg(fpv)-guarded re-export of the reset-marker collection, so that a check can start it near its wrap-around")
p("C07","Node orderings are permutations and round-trip",
 "The node ordering reported by a prepared graph is a permutation of all its node ids. Preparing with an order yields a graph that reports exactly that order, and an ordering taken from one graph can be used to prepare any other graph with the same number of nodes.",
 ["inputs","configurations"],"all graphs (including nodes without edges), all permutations",
 "Tests only feed the ordering back on the map it came from and check a checksum of query weights.",
 ["src/fast_graph.rs","src/fast_graph_builder.rs","src/lib.rs"],
 [("ranks","FastGraphBuilder::run_contraction*"),("inversion","FastGraph::get_node_ordering")],
 [("ranks","contraction rank per node","FastGraph")],["get_node_ordering, prepare_with_order"])
p("C08","Every stored arc of a prepared graph is justified",
 "In every prepared graph each stored arc leads from a node to one that comes later in the node ordering, there is at most one arc per ordered node pair and direction, and its weight is that of a real path of the input graph, hence never below the true distance. An arc marked as shortcut is exactly the concatenation of the two stored arcs it refers to via an earlier node, with weights adding up; any other arc is an input edge with its weight.",
 ["inputs","configurations"],"all graphs, all preparation modes (automatic order, any fixed order, any limits)",
 "Tests never look inside prepared graphs except for edge counts on tiny examples.",
 ["src/fast_graph_builder.rs","src/node_contractor.rs","src/preparation_graph.rs","src/fast_graph.rs","src/fast_graph32.rs"],
 [("arc emission in rank order","FastGraphBuilder::run_contraction*"),("mirrored in/out shortcut bookkeeping","PreparationGraph::add_or_reduce_edge"),("replaced-edge lookup","FastGraphBuilder::finish_contraction")],
 [("edges_fwd / edges_bwd","upward arcs grouped by rank","FastGraph")],["serialized form of the prepared graph"])
p("C09","Preparation is deterministic",
 "Preparing equal input graphs with equal parameters always yields the same prepared graph, byte for byte when serialized, regardless of the order in which edges were added, of repetitions in the same process, and of per-process randomness.",
 ["inputs","configurations","histories"],"all graphs, all edge insertion orders, all hash seeds",
 "One test prepares ten random graphs twice each in one process; ties between priorities, duplicate edges and insertion order are not varied.",
 ["src/fast_graph_builder.rs","src/input_graph.rs"],
 [("ordered neighbour set and stable queue","FastGraphBuilder::run_contraction"),("total edge order","InputGraph::sort")],
 [],["serialized prepared graph"])
p("C10","Freezing normalises the input graph",
 "After any sequence of edge additions, a frozen graph lists exactly one edge per ordered node pair that was added with positive weight and distinct endpoints, sorted by source and target, carrying the smallest weight added for that pair. Loops and zero-weight edges are ignored and count as zero added edges, a bidirectional addition equals two directed ones, and the node count is one more than the largest node id among accepted edges.",
 ["inputs","histories"],"all finite sequences of add_edge / add_edge_bidir calls with arbitrary ids and weights",
 "Tests check two lists of up to nine edges with fixed weights.",
 ["src/input_graph.rs"],
 [("sort + dedup","InputGraph::freeze"),("acceptance filter and node count","InputGraph::do_add_edge")],
 [("edges","accepted edges","InputGraph"),("num_nodes","1 + largest id","InputGraph")],["get_edges, get_num_nodes, get_num_edges, return value of add_edge*"])
p("C11","Frozen and thawed input graphs enforce their life cycle",
 "A frozen graph refuses edge additions and a second freeze, a graph that is not frozen refuses to be read or prepared, and thawing allows changes again without losing any edge. Any history of additions, freezes and thaws ends, once frozen, in the same graph as adding all accepted edges to a new graph and freezing it once.",
 ["histories","inputs"],"all finite histories of add / freeze / thaw / read calls",
 "Four should_panic tests and one freeze-thaw-freeze sequence.",
 ["src/input_graph.rs"],
 [("frozen flag checks","InputGraph::check_frozen / do_add_edge / freeze / thaw")],
 [("frozen","life-cycle state","InputGraph")],["panics of the public methods, get_edges"])
p("C12","The 32-bit representation is lossless or refused",
 "Converting a prepared graph to the 32-bit representation and back yields a prepared graph with the same contents and the same query answers whenever that is possible; a graph containing a number that the 32-bit form cannot represent faithfully is refused with a panic and never silently altered.",
 ["inputs"],"all prepared graphs, all values of weights, node ids and edge ids up to and beyond the 32-bit limit",
 "One hand-written graph and one value of five billion; the values around 2^32 are not tried.",
 ["src/fast_graph32.rs","src/lib.rs"],
 [("checked narrowing with a reserved invalid marker","usize_to_u32 / u32_to_usize")],
 [],["FastGraph32::new / convert_to_usize, serialize_32 / deserialize_32"])
p("C13","Serialization restores an identical graph",
 "Serializing a prepared graph, or a frozen or unfrozen input graph, through Serde and reading it back yields a graph with identical contents, so that re-serialization gives the same bytes and every query and every further operation behaves as on the original.",
 ["inputs"],"all graphs, all weights",
 "One four-node graph is written and only its node and edge counts are compared.",
 ["src/fast_graph.rs","src/input_graph.rs","src/fast_graph32.rs","src/lib.rs"],
 [("derived Serde implementations","FastGraph, FastGraphEdge, InputGraph, Edge")],
 [],["bincode round trip"])
p("C14","Text and DIMACS files round-trip",
 "Writing a frozen graph to a text or DIMACS file and reading it back gives the same nodes, edges and weights, and writing reports success only if the whole file was written. DIMACS input with arc lines but no header before them, with a repeated header, or with arc lines that contradict the header (ids out of range, too few or too many arcs, stray lines) is refused with a panic, while comments and empty lines are ignored.",
 ["inputs"],"all frozen graphs; all DIMACS documents",
 "File reading is exercised on five well-formed map files in one of the two formats; writing and malformed input not at all.",
 ["src/input_graph.rs"],
 [("line formats","InputGraph::to_file / from_file / to_dimacs_file / from_dimacs_file / read_arc_line")],
 [],["get_edges / get_num_nodes after reading, panics"])
p("C15","Invalid query arguments are refused",
 "A query whose source or target id is not a node of the prepared graph, whose source or target list is empty, or whose prepared graph has a different number of nodes than the calculator was created for, panics and is never answered with a result. Valid queries on the same calculator are always accepted, also after refused ones.",
 ["inputs"],"all ids, all list lengths, all combinations of calculator and graph sizes",
 "No test passes an invalid query.",
 ["src/path_calculator.rs"],
 [("argument assertions","PathCalculator::calc_path_multiple_sources_and_targets")],
 [],["calc_path, calc_path_multiple_sources_and_targets"])
p("C16","Valid use never panics, overflows or hangs",
 "Building, freezing, preparing (in any mode) and querying any graph with valid arguments always terminates normally: no panic, no arithmetic overflow, no out-of-bounds access and no endless loop, as long as the sums of edge and initial weights that occur stay below the maximum weight. This includes empty graphs, nodes without edges and weights close to that limit.",
 ["inputs","configurations"],"all graphs and queries within the weight limit, development and release builds",
 "Tests run small weights in release mode only, where overflow is silent.",
 FULL,[("unreached marker kept out of additions","get_weight_fwd/bwd, is_stallable_*, find_max_weight"),("argument checks","throughout")],
 [],["absence of panics in both build profiles"])
p("C17","Contracting a node preserves all remaining distances",
 "Contracting any node of any intermediate preparation graph, with any limit on the witness search, leaves the shortest-path weight between every two remaining nodes unchanged, removes every arc at the contracted node, and keeps the outgoing and incoming views of the graph mirror images of each other with at most one arc per ordered pair. It never creates a loop.",
 ["inputs","configurations"],"all preparation graphs, all nodes, all limits (one inductive step covers histories of any length)",
 "One five-node example checks edge counts after a contraction.",
 ["src/node_contractor.rs","src/witness_search.rs","src/preparation_graph.rs","src/heap_item.rs"],
 [("shortcut insertion","node_contractor::handle_shortcuts / add_shortcut"),("witness search","WitnessSearch::find_max_weight"),("removal","PreparationGraph::disconnect")],
 [("out_edges / in_edges","mirrored adjacency","PreparationGraph")],["preparation graph before and after contract_node"],
 "cfg(fpv)-guarded re-export of the preparation graph, the witness search and contract_node")
p("C18","The witness search returns a sound upper bound",
 "The bounded search used while preparing never reports a weight below the true shortest-path weight from its start to the requested target avoiding the excluded node. Without a limit on settled nodes, it reports a weight at most the given weight limit exactly when such a path exists, for every sequence of targets and limits requested from the same start.",
 ["inputs","histories"],"all graphs, start/avoid/target nodes, weight and settled-node limits, and sequences of requests re-using one search",
 "Five hand-written graphs with fixed request sequences.",
 ["src/witness_search.rs","src/valid_flags.rs","src/heap_item.rs"],
 [("resumable bounded search","WitnessSearch::init / find_max_weight")],
 [("settled / weight / heap","resumable search tree","WitnessSearch")],["return value of find_max_weight"],
 "cfg(fpv)-guarded re-export of the witness search")
p("C19","Concurrent queries on one prepared graph are independent",
 "Several threads querying one shared prepared graph, each with its own calculator, all get the answers sequential queries would give.",
 ["schedules"],"all interleavings of queries",
 "No test uses threads.",
 ["src/path_calculator.rs","src/fast_graph.rs"],
 [("shared graph is only read (&FastGraph), no interior mutability","PathCalculator::calc_path")],[],["calc_path from several threads"])
p("C20","Preparation and queries scale to road networks",
 "On road-like sparse graphs (roads with dead ends, double roads, trees, street grids) the work of building and preparing grows little more than in proportion to the graph (for grids, with their large separators, a little faster), the prepared graph stays sparse, the work of a query whose path does not get longer grows far slower than the graph, and a query costs the same however many queries the calculator answered before.",
 ["inputs"],"all large sparse road-like graphs",
 "Performance tests print times without asserting on them.",
 ["src/fast_graph_builder.rs","src/path_calculator.rs","src/witness_search.rs","src/node_contractor.rs","src/valid_flags.rs"],
 [("priority heuristics","node_contractor::calc_relevance"),("clearing of search state in constant time","ValidFlags::invalidate_all")],[],["work (executed instructions or processor time), number of stored arcs"])
p("C21","The depth of calls does not grow with the graph",
 "Building, freezing, preparing (in any mode, with any order) and querying a graph nests calls only to a fixed depth, however large the graph is, however long its paths are and however deeply its shortcuts are nested, so that no valid use exhausts the stack of an ordinary thread.",
 ["inputs","configurations"],"all graphs, above all those whose shortcuts are nested as deeply as the graph is large",
 "The test graphs are prepared with orders under which shortcuts nest a few dozen levels deep.",
 ["src/path_calculator.rs","src/fast_graph_builder.rs","src/node_contractor.rs","src/witness_search.rs","src/input_graph.rs"],
 [("unpacking of shortcuts","PathCalculator::unpack_fwd / unpack_bwd")],[],["depth of the call stack; stack overflow in a thread with a small stack"])
p("C22","Results compare by end points and weight",
 "Two shortest-path results are equal exactly if source, target and weight are equal, whatever nodes lie between; a result keeps the values it was made of, a copy equals its original, a result is found exactly if its weight is not the maximum weight, and the result for a single node has weight 0 and only that node.",
 ["inputs"],"all pairs of results (every source, target, weight and node list) and all results of queries",
 "Tests compare a few results that differ in everything or in nothing.",
 ["src/shortest_path.rs","src/path_calculator.rs"],
 [("comparison","ShortestPath::eq")],[],["== and accessors of ShortestPath"])
p("C23","Shorthand functions equal their explicit forms",
 "Preparing with the shorthand functions yields the same prepared graph as preparing with explicit default parameters or through the builder, an order is accepted or refused alike by all forms, and one-call queries return the same result (weight, end points and nodes) as a calculator created for the graph and as a query with single sources and targets of weight 0.",
 ["inputs","configurations"],"all graphs, orders and queries",
 "Tests use one of the forms per case.",
 ["src/lib.rs","src/fast_graph_builder.rs","src/path_calculator.rs"],
 [("delegation","prepare*, calc_path*, FastGraphBuilder::build*")],[],["serialized contents of prepared graphs, results of queries"])
p("C24","Graphs are independent values",
 "A copy of an input graph (frozen or not) or of a prepared graph has the same contents as the original and is independent of it: changing, freezing, thawing, preparing or dropping one never affects the other. Preparing does not change the input graph, later changes of the input graph do not change what was prepared from it, and queries do not change the prepared graph.",
 ["inputs","histories"],"all graphs and all operations on either of two copies",
 "Tests hardly copy graphs and do not look at the original afterwards.",
 ["src/input_graph.rs","src/fast_graph.rs","src/fast_graph_builder.rs","src/path_calculator.rs"],
 [("Clone","InputGraph, FastGraph, Edge"),("read-only borrow during preparation and queries","FastGraphBuilder::build*, PathCalculator::calc_path*")],[],["contents of both graphs before and after"])
p("C25","Memory in use stays bounded",
 "However many queries a calculator answers, however many one-call queries are made and however often graphs are copied, prepared, frozen, thawed and dropped, the memory in use afterwards does not grow; dropping prepared graphs and calculators returns their memory. On sparse graphs the memory of an input graph, a prepared graph and a calculator grows in proportion to the graph.",
 ["inputs","histories"],"all graphs, all numbers of repetitions",
 "No test looks at memory.",
 ["src/path_calculator.rs","src/valid_flags.rs","src/fast_graph_builder.rs","src/input_graph.rs"],
 [("search state is allocated once per calculator and reused","PathCalculator::new / calc_path")],[],["bytes allocated on the heap"])
import os
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
