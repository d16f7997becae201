"""Which entries of the harness crate decide which property, in which flavour, and what must have been reached."""
def w(s): return s.split()
# bits of fpv_reach that a complete exploration must have set (default: bit 0; nothing for seeded graphs)
REACH = {}
def reach(mask, names):
    for n in w(names): REACH[n] = mask
reach(0b111, 'c03_heavy3 c03_heavy4 c03_n3_11 c03_n3_21 c03_n3_12 c03_n3_22 c03_n3_22b c03_n3_31 c03_n3_13 c03_n4_11 c03_n4_21 c03_n4_22')
reach(0b111, 'c06_3_2 c06_3_3 c06_4_2 c13_input2 c13_input3 c13_input3_3 c14_dimacs2 c14_dimacs3 c14_dimacs4 c16_n3 c16_n3_4 c16_n4')
reach(0b11, 'c14_wide20 c07_n3 c07_n4 c08_n3 c08_n3_default c08_n4_4 c08_n4_6 c08_n4_any c08_n4_any3 c08_hub50 c08_grid8 c08_grid12 c08_chain80 c08_chain150 c08_dense12 c08_cycle5 c12_n3 c12_n3_lim c12_n4_half c12_contents c15_ids3 c15_lists3 c15_lists2 c15_size3 c16_gaps6')
reach(0b111, 'c14_limit0 c14_limit3 c14_limit2000')
reach(0b1111, 'c11_2_4 c11_2_5 c11_2_6 c11_3_4')
PLAN = {}
def plan(id, checked, plain, bounds, thorough=(), assumptions=(), **more):
    th = []
    for x in thorough:
        fl, e, s = x if len(x) == 3 else ('checked', x[0], x[1])
        th.append((fl, e, s))
    PLAN[id] = dict(checked=w(checked), plain=w(plain), bounds=bounds, thorough=th, assumptions=list(assumptions), **more)
SUM = 'weights below 2^62 each, so that the sums that occur stay below the maximum weight (a user-visible precondition)'
plan('C01', 'c01_n3 c01_n4_4 c01_n4_5 c01_n5_4 c01_cycle5 c01_chain6 c01_k4 c01_star5 c01_diamonds7 c01_all3 c01_mid8 c01_mid12 c01_mid20 c01_mid30 c02_chain24 c01_big66 c01_wheel24 big_grid12 big_grid30 big_complete16 big_hub60 big_hub300 big_grid8 big_pairs70 c16_heavy_chain c16_dag3',
     'c01_n3 c01_n4_4 c01_all3 c01_diamonds7 c01_mid12 c16_heavy_chain',
     'all digraphs with 3 nodes; 4 nodes/<=5 edges; 5 nodes/<=4 edges; named 4-7 node topologies; all edge weights symbolic; seeded graphs of 8-30 nodes with 1-2 symbolic weights; all source/target pairs; a wheel of 24 spokes; 66000 nodes of which few have edges; grids of 64, 144 and 900 nodes, 70000 separate pairs, the complete graph of 16 nodes, hubs of 60 and 300 spokes with one symbolic weight; 3-4 nodes with weights up to the limit',
     [('c01_n4_6', 100), ('c01_n4_7', 300), ('c01_n5_5', 300), ('c01_grid6', 200), ('c01_wheel5', 200), ('c01_wheel40', 200), ('c01_wheel40_order', 200), ('big_grid16', 200), ('big_grid50', 200), ('big_complete24', 200)], [SUM])
plan('C02', 'c01_n3 c01_n4_4 c01_n5_4 c01_cycle5 c01_chain6 c01_diamonds7 c02_chain12 c02_chain24 c01_mid12 c01_mid20 c01_mid30 c03_n3_21 c03_mid8 c04_n4_4 c02_chain100 big_chain60 big_chain1000 big_chain3000 big_grid30 big_pairs70',
     'c01_n3 c01_n4_4 c02_chain12 c01_mid8',
     'as C01, plus bidirectional chains of 12, 24 and 100 nodes (deeply nested shortcuts) with 1-3 symbolic weights, plus any order and limit on 4 nodes/<=4 edges, plus weighted sources and targets, chains of up to 3000 nodes and a grid of 900 nodes with one symbolic weight',
     [('c02_chain60', 200), ('c02_chain300', 300), ('c01_n4_6', 100), ('c01_grid6', 200), ('c03_n4_21', 200)], [SUM])
plan('C03', 'c03_n3_11 c03_n3_21 c03_n3_12 c03_n4_11 c03_order3 c03_heavy3 c03_heavy4 c03_mid8 c03_long30 c03_list300 big_lists70', 'c03_n3_11 c03_n3_12 c03_heavy3 c03_mid8',
     'lists of 1x1, 2x1, 1x2 symbolic (id, weight) options incl. duplicates and the maximum weight, on all 3-node graphs (2-entry lists: <=3 edges; any order: <=2 edges), 4 nodes/<=4 edges; lists of 2x3, 30 and 300 entries (one symbolic) on seeded 8-node graphs; lists of 70000 entries on a ring of 50 nodes; initial weights up to the limit (every sum that occurs just below the maximum weight) on acyclic graphs of 3 and 4 nodes',
     [('c03_n3_22', 200), ('c03_n3_22b', 300), ('c03_n3_31', 200), ('c03_n3_13', 200), ('c03_n4_21', 300), ('c03_n4_22', 300), ('c03_mid20', 200), ('c03_long40', 300)], [SUM])
plan('C04', 'c04_n3 c04_n3_default c04_n4_4 c04_n4_4_default c04_len3 c04_bad3 c04_bad4 c04_mid8 c04_mid12 big_chain1000 big_grid8', 'c04_n3 c04_n3_default c04_len3 c04_bad3 c04_mid8',
     'every permutation of 3 and 4 nodes, symbolic settled-nodes limit, all 3-node graphs and 4 nodes/<=4 edges with symbolic weights; order lengths 0..5 on 3 nodes; orders of 3 and 4 nodes with any one entry replaced by any id that is no node (symbolic); seeded orders on 8/12-node graphs; identity, reversed and scrambled orders on a chain of 1000 nodes and a grid of 64',
     [('c04_n4_5', 400)], [SUM])
plan('C05', 'c05_limits3 c05_limits4_4 c05_limits4_5 c05_factors3 c05_factors4 c05_mid8 big_chain60 big_limits6 big_limits8', 'c05_limits3 c05_factors3 c05_mid8',
     'symbolic 64-bit limits (both) on all 3-node graphs and 4 nodes/<=5 edges; priority factors from a set including 0, negative, infinite, NaN, huge and tiny values on 3 nodes/<=4 and 4 nodes/<=4 edges; negative depth factor on a chain of 60 nodes (a hierarchy 60 levels deep); each limit symbolic on grids of 36 and 64 nodes',
     [('c05_mid12', 300), ('plain', 'c05_limits4_4', 100), ('plain', 'c05_factors4', 100)], [SUM, 'priority factors are chosen from a finite set; floating point is evaluated concretely'])
plan('C06', 'c06_3_2 c06_3_3 c06_4_2 c06_multi_a c06_multi_b c06_switch3 c06_many300 c06_many66000 c06_refused3 c06_refused4 c06_fresh700 c06_mid8 c06_mid14 c06_flags3 c06_flags4 c06_age3 c06_age4 big_grid30',
     'c06_3_2 c06_multi_a c06_switch3 c06_many66000 c06_refused3 c06_mid8 c06_flags3 c06_age3',
     'two queries on 3-node graphs (<=4 edges), three on 3 nodes/<=3 edges, two on 4 nodes/<=3 edges, multi-source queries, another graph in between, 300 and 66000 earlier queries, refused queries in between, 700 calculators in a row; reset marker from an arbitrary state (hook); queries in a row on a grid of 900 nodes',
     [('plain', 'c06_3_3', 60), ('plain', 'c06_4_2', 60), ('plain', 'c06_multi_b', 60)], [SUM])
plan('C07', 'c07_n3 c07_n4 c07_order3 c07_order4 c07_mid10 c07_mid30 c07_big66', 'c07_n3 c07_order3 c07_mid10 c07_big66',
     'all prepared 3-node graphs (<=4 edges) and 4 nodes/<=4 edges, every given order of 3 and 4 nodes, seeded graphs of 10 and 30 nodes, 66000 nodes', [], [SUM])
plan('C08', 'c08_n3 c08_n3_default c08_n4_4 c08_n4_6 c08_n4_any c08_cycle5 c08_star5 c08_mid10 c08_mid24 c08_hub50 c08_grid8 c08_dense12 c08_chain80', 'c08_n3 c08_n3_default c08_n4_4 c08_mid10 c08_grid8',
     'serialized contents of every prepared graph: 3 nodes and 4 nodes/<=4 edges (any order and limit), 4 nodes/<=6 edges (default order), 5-node cycle and star, seeded 10 and 24 nodes; a hub of 50, a grid of 64, a complete graph of 12, a chain of 80 nodes, with one symbolic weight, default and given orders', [('c08_grid12', 100), ('c08_chain150', 100)], [SUM])
plan('C09', 'c09_n3 c09_n4 c09_dups3 c09_star5 c09_mid10 c09_mid20 c09_grid8 big_around20 big_around44 big_fan80', 'c09_n3 c09_n4 c09_dups3 c09_mid10 c09_mid20',
     'byte-identical serialization of two preparations with different hasher seeds (arbitrary), permuted edge insertion: 3 nodes/<=3 edges, 4 nodes/<=4, duplicates, star, seeded 10/20 nodes, hubs of 20, 44 and 86 neighbours, a grid of 64 nodes',
     [('c09_grid16', 100), ('big_fan150', 200), ('c09_k4', 300)], [SUM])
plan('C10', 'c10_2_3 c10_3_3 c10_3_4 c10_4_3 c10_ids2 c10_ids3 c10_long40 c10_long400 c10_big70', 'c10_2_3 c10_3_3 c10_4_3 c10_ids2 c10_ids3 c10_long40',
     'every history of <=3 additions on 2-4 nodes and 4 on 3 nodes with symbolic weights (0 and the maximum included), symbolic 64-bit ids, 40 and 400 additions with 3 symbolic weights, 70000 additions with one')
plan('C11', 'c11_2_4 c11_3_4 c11_thaw3 c11_long80', 'c11_2_4 c11_thaw3 c11_3_4',
     'every history of 4 operations (add, bidirectional add, freeze, thaw, copy, reads, prepare; refused ones included) on 2 and 3 nodes; thaw followed by additions on 3-node graphs; seeded histories of 80 operations with 3 symbolic weights',
     [('c11_long300', 100), ('plain', 'c11_2_5', 300), ('plain', 'c11_2_6', 400)])
plan('C12', 'c12_n3 c12_n3_lim c12_n4_half c12_n4_small c12_contents c12_mid12 big_bytes32', 'c12_n3 c12_n3_lim c12_n4_half c12_contents c12_mid12',
     'prepared 3- and 4-node graphs with symbolic weights around 2^31, 2^32 and up to 2^34; arbitrary symbolic 64-bit contents of a prepared graph with 2 nodes; 12-node seeded graph; 140000 nodes and edges')
plan('C13', 'c13_fast3 c13_fast4 c13_input2 c13_input3 c13_input3_3 c13_mid12 big_bytes64 big_input70', 'c13_fast3 c13_input2 c13_input3 c13_mid12',
     'prepared 3-/4-node graphs with symbolic weights; input graphs after any history of additions/freezes (2-3 nodes, <=3 operations); seeded 12 nodes; a prepared graph of 140000 nodes and edges; an input graph of 70000 edges; bincode and a token-level Serde format')
plan('C14', 'c14_roundtrip3 c14_roundtrip3w c14_roundtrip4 c14_edge_small c14_big400 c14_full1 c14_full2000 c14_limit0 c14_limit3 c14_limit2000 c14_open c14_dimacs2 c14_dimacs3 c14_dimacs4 c14_wide20 c14_text1 c14_text2',
     'c14_roundtrip3 c14_roundtrip3w c14_roundtrip4 c14_edge_small c14_big400 c14_full1 c14_full2000 c14_limit0 c14_limit3 c14_limit2000 c14_open c14_dimacs2 c14_dimacs3 c14_dimacs4 c14_wide20 c14_text1 c14_text2',
     '3 edges with weights of any number of digits, 1 edge with ids/weights of 1-20 digits, 400 edges, a full device, a device that runs full after any number of bytes (3 edges; around buffer boundaries for 2000), every DIMACS text of <=3-4 lines built from a grammar of valid and defective lines, any one number of a document replaced by any number of 1-20 digits, text files of <=2 lines',
     [('plain', 'c14_edge_wide', 200), ('c14_big70', 100)], ['file content is written and read through the engine\'s in-memory file model'])
plan('C15', 'c15_ids3 c15_lists3 c15_lists2 c15_size3 c15_switch3 c15_long12 c15_long40 c15_long300', 'c15_ids3 c15_lists3 c15_lists2 c15_size3 c15_switch3 c15_long40',
     'symbolic 64-bit source/target ids, lists of 0-3 entries (and of 12, 40 and 300 with one invalid entry) with symbolic ids and weights, calculators of other sizes, followed by a valid query on the same calculator', [], [SUM])
plan('C16', 'c16_n3 c16_n3_4 c16_n4 c16_heavy_chain c16_heavy_order c16_gaps6 c16_empty0 c05_limits3 c16_dag3 c16_dag4 c16_dag3_order c16_dag4_order c03_heavy4 big_chain1000 big_nested3000 big_pairs70 big_grid30', 'c16_n3 c16_heavy_chain c16_heavy_order c16_gaps6 c16_empty0',
     'every history of building, preparing in any mode and querying on 3 nodes/<=4 edges and 4 nodes/<=3 edges with weights up to the maximum (sums below it), 4-node cycle with weights up to the limit, acyclic graphs of 3 and 4 nodes with weights up to the limit, ids with gaps, empty graphs, a chain of 1000 nodes, a grid of 900, 70000 separate pairs (140000 nodes); overflow and bounds checks compiled in')
plan('C17', 'c17_n3 c17_n4_4 c17_n4_5 c17_k4 c17_star5 c17_reduce3 c17_reduce3_4 c17_mid10 c17_mid16 c17_mid30 c17_hub40', 'c17_n3 c17_n4_4 c17_reduce3 c17_mid10',
     'contraction of any node (twice in a row for 3 nodes) with a symbolic limit in any preparation graph of 3 nodes, 4 nodes/<=5 edges, complete and star graphs, seeded 10/16/30 nodes and a node with 39 neighbours, symbolic weights',
     [('c17_n4_7', 200)], [SUM])
plan('C18', 'c18_n3 c18_n3_lim c18_n3_3 c18_n4_1 c18_init3 c18_init3_lim c18_mid10 c18_mid20 c18_grid8', 'c18_n3 c18_init3 c18_mid10 c18_mid20',
     'sequences of 1-3 requests with symbolic targets, weight limits and settled-node limits from the same start on 3 nodes (all graphs), 4 nodes/<=5 edges, re-initialisation, seeded 10/20 nodes, a grid of 64 nodes',
     [('c18_grid16', 100), ('c18_n4_2', 100), ('c18_n4_2b', 300), ('c18_n4_lim', 300)], [SUM])
plan('C19', 'c19_types c19_n3 c19_n3_2 c19_n4 c19_par3 c19_par3_2 c19_par4 c19_multi3 c19_mid8 c19_mid20 c19_prep3', 'c19_n3 c19_par3 c19_par4 c19_multi3 c19_mid8 c19_prep3',
     'two calculators on one shared prepared graph, in turns and in two threads (calculators made outside or inside the threads, 1-2 queries per thread, single and weighted end points; 3 nodes/<=3 edges, 4 nodes/<=3 edges, seeded 8 and 20 nodes), two threads preparing a graph each; symbolic weights, all queries; for every pair of threads that touches common memory with a write all interleavings with at most 2 preemptions at such accesses', [], [SUM],
     threads='two threads at a time, sequentially consistent memory, at most 2 preemptions (only for threads that touch common memory at all; others are independent in every interleaving), thread switches at accesses to memory that existed before the threads started')
plan('C20', 'work_tree60 work_grid7 work_blocks7', 'work_comb work_ladder work_tree work_grid work_blocks work_tree60 work_grid7 work_blocks7',
     'costs (executed instructions plus words moved) of building, preparing (default parameters and given order), and of 16 + 16 queries (with and without a path, before and after 80 others), and the number of stored arcs, compared between two sizes of the same kind of road-like graph: roads with dead ends (2000/20000 nodes), double roads (1200/12000), trees (2000/20000 and 30/60), street grids with random and equal weights (144/576 and 25/49); one symbolic weight',
     [], [SUM], maxinst=3000000000)
plan('C21', 'big_nested3000 big_nested1000 big_flat600', 'big_nested3000 big_nested1000 big_flat600',
     'at most 200 nested calls (more than any graph of these sizes needs, far fewer than nodes or nested shortcuts) while building, freezing, thawing, preparing (default and extreme parameters, 6 fixed orders) and querying a chain of 3000 and 1000 nodes whose shortcuts are nested as deeply as it is long, and a ring of 600 with lists of 600 weighted sources and targets; one symbolic weight; replays use a graph 20 times as large and a stack of 256 KB', [], [SUM])
plan('C22', 'c22_2 c22_special c22_q3 c22_q4', 'c22_2 c22_special c22_q3',
     'two results with arbitrary symbolic 64-bit source, target, weight and node lists of up to 2 entries; results of all queries on all 3-node graphs and 4 nodes/<=4 edges')
plan('C23', 'c23_n3 c23_n4 c23_multi3 c23_len3 big_forms16', 'c23_n3 c23_multi3 c23_len3 big_forms16',
     'every function form on 3 nodes/<=4 edges and 4 nodes/<=3 edges with symbolic weights and rotated or reversed orders, all queries; 1-2 weighted sources and targets on 3 nodes/<=2 edges; orders of 0-5 entries; a seeded grid of 256 nodes (where the default limits matter) with one symbolic weight', [], [SUM])
plan('C24', 'val_copies2 val_copies3 val_copies3_2 val_apart3 val_apart4 val_apart8', 'val_copies2 val_copies3 val_apart3',
     'copies of input graphs after every history of up to 2 additions on 2 and 3 nodes, frozen or not or thawed, followed by up to 2 additions to either; prepared graphs (default, given order, other parameters) and their copies on 3 nodes/<=3 edges, 4 nodes/<=3 edges and a seeded graph of 8 nodes, before and after queries and changes of the input graph; symbolic weights', [('val_apart12', 300)], [SUM])
plan('C25', 'mem_n8 mem_cycle4 mem_chain30 mem_size100 mem_size1000', 'mem_n8 mem_cycle4 mem_chain30 mem_size1000',
     'bytes in use after 3 to 6 repetitions of all queries, one-call queries, preparations, conversions, freezes and thaws on a cycle of 4, a seeded graph of 8 and a chain of 30 nodes; memory of input graph, prepared graph and calculator at two sizes (trees of 100 and 600, 1000 and 10000 nodes) and after dropping them; symbolic weights', [], [SUM])
# engine self-test: programs with a known verdict
SELFTEST = w('self_ok_deep self_bad_deep self_ok_try self_bad_try self_ok_threads self_ok_threads_local self_bad_threads self_bad_threads_lock self_ok_float self_ok_float_arith self_ok_arith self_ok_sort self_ok_text self_ok_map self_bad_float_round self_bad_float_cmp self_bad_float_mul self_bad_add self_bad_trunc self_bad_rare self_bad_index self_bad_sort self_bad_text self_bad_panic self_bad_loop')
# what is decided when the hooks of /repo no longer build (public interface only)
MISSING_HOOKS = {
  'C17': dict(checked=w('c04_n3 c08_n3'), plain=[]),
  'C18': dict(checked=w('c04_n3 c08_n3'), plain=[]),
}
