//! C01, C02, C04, C05, C07, C16: the pipeline build -> freeze -> prepare -> query.
use crate::api::*;
use crate::graphs::*;
use fast_paths::*;

pub fn c01(g: G) {
    let f = prepare(&g.input());
    check(f.get_num_nodes() == g.nodes(), "node count of the prepared graph");
    any_query(&g, &f);
    reach(0);
}
/// every query of one graph, on one calculator
pub fn c01_all(g: G) {
    let f = prepare(&g.input());
    all_queries(&g, &f);
    reach(0);
}
/// larger graphs: few symbolic weights, one calculator for all queries from one source
pub fn c01_mid(n: usize, m: usize, k: usize, variants: usize) {
    let g = seeded(n, m, k, param() * 100 + choose(variants));
    let f = prepare(&g.input());
    let mut c = create_calculator(&f);
    let s = choose(n);
    let d = g.dists(s);
    for t in 0..n { let p = c.calc_path(&f, s, t); check_query_d(&g, &d, s, t, &p); }
    reach(0);
}
/// a long chain (deeply nested shortcuts) with k symbolic weights
pub fn c02_chain(n: usize, k: usize) {
    let mut e = vec![];
    let mut r = Rng(param() as u64);
    for i in 0..n - 1 { let w = if i % (n / k) == 1 { sym(1, WMAX) } else { 1 + r.below(9) }; e.push((i, i + 1, w)); e.push((i + 1, i, w)); }
    let g = G { n, e };
    let f = prepare(&g.input());
    let mut c = create_calculator(&f);
    for (s, t) in [(0, n - 1), (n - 1, 0), (n / 2, n - 1), (n - 2, 1), (1, n / 2)] {
        let d = g.dists(s);
        let p = c.calc_path(&f, s, t);
        check_query_d(&g, &d, s, t, &p);
        check(p.unwrap().get_nodes().len() == if s < t { t - s + 1 } else { s - t + 1 }, "length of the only path");
    }
    reach(0);
}
pub fn permutation(n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut r = vec![];
    while !left.is_empty() { let i = choose(left.len()); r.push(left.remove(i)); }
    r
}
/// any order, any limit
pub fn c04(g: G) {
    let n = g.nodes();
    let order = permutation(n);
    let lim = sym(0, usize::MAX);
    let f = prepare_with_order_with_params(&g.input(), &order, &ParamsWithOrder::new(lim));
    let f = match f { Ok(f) => f, Err(_) => { check(false, "valid order refused"); return; } };
    check(f.get_num_nodes() == n, "node count of the prepared graph");
    any_query(&g, &f);
    reach(0);
}
pub fn c04_default(g: G) {
    let n = g.nodes();
    let order = permutation(n);
    let f = match prepare_with_order(&g.input(), &order) { Ok(f) => f, Err(_) => { check(false, "valid order refused"); return; } };
    any_query(&g, &f);
    reach(0);
}
/// order of the wrong length
pub fn c04_len(g: G, max: usize) {
    let n = g.nodes();
    let len = choose(max + 1);
    if len == n { return; }
    let order: Vec<usize> = if flip() { (0..len).collect() } else { (0..len).rev().collect() };
    let input = g.input();
    let r = if flip() { prepare_with_order(&input, &order) } else { prepare_with_order_with_params(&input, &order, &ParamsWithOrder::new(sym(0, usize::MAX))) };
    check(r.is_err(), "order of the wrong length accepted");
    reach(0);
}
/// larger graph, seeded order, any limit
pub fn c04_mid(n: usize, m: usize, k: usize, variants: usize) {
    let v = param() * 100 + choose(variants);
    let g = seeded(n, m, k, v);
    let mut r = Rng(v as u64 + 99);
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() { let j = r.below(i + 1); order.swap(i, j); }
    let f = prepare_with_order_with_params(&g.input(), &order, &ParamsWithOrder::new(sym(0, usize::MAX))).unwrap();
    let mut c = create_calculator(&f);
    let s = choose(n);
    let d = g.dists(s);
    for t in 0..n { let p = c.calc_path(&f, s, t); check_query_d(&g, &d, s, t, &p); }
    reach(0);
}
pub const FACTORS: [f32; 12] = [0.1, 0.0, 1.0, -1.0, 1e-40, 1e30, -1e30, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
/// any limits
pub fn c05_limits(g: G) {
    let p = Params::new(0.1, sym(0, usize::MAX), sym(0, usize::MAX), sym(0, usize::MAX));
    let f = prepare_with_params(&g.input(), &p);
    any_query(&g, &f);
    reach(0);
}
/// extreme factors
pub fn c05_factors(g: G, na: usize, nb: usize) {
    let mut p = Params::default();
    p.hierarchy_depth_factor = FACTORS[choose(na)];
    p.edge_quotient_factor = FACTORS[choose(nb)];
    let f = prepare_with_params(&g.input(), &p);
    any_query(&g, &f);
    reach(0);
}
pub fn c05_mid(n: usize, m: usize, k: usize, variants: usize) {
    let g = seeded(n, m, k, param() * 100 + choose(variants));
    let mut p = Params::new(FACTORS[choose(4)], 0, 0, 0);
    p.edge_quotient_factor = FACTORS[choose(3)];
    let l = sym(0, usize::MAX);
    match choose(3) { 0 => p.max_settled_nodes_initial_relevance = l, 1 => p.max_settled_nodes_neighbor_relevance = l, _ => p.max_settled_nodes_contraction = l }
    let f = prepare_with_params(&g.input(), &p);
    let mut c = create_calculator(&f);
    let s = choose(n);
    let d = g.dists(s);
    for t in 0..n { let p = c.calc_path(&f, s, t); check_query_d(&g, &d, s, t, &p); }
    reach(0);
}
/// one of the ways to prepare a graph
pub fn any_prepare(g: &InputGraph) -> FastGraph {
    let n = g.get_num_nodes();
    match choose(4) {
        0 => prepare(g),
        1 => prepare_with_params(g, &Params::new(FACTORS[choose(3)], sym(0, usize::MAX), sym(0, usize::MAX), sym(0, usize::MAX))),
        2 => { let o = permutation(n); prepare_with_order(g, &o).unwrap() }
        _ => { let o = permutation(n); prepare_with_order_with_params(g, &o, &ParamsWithOrder::new(sym(0, usize::MAX))).unwrap() }
    }
}
fn check_perm(o: &[usize], n: usize) {
    check(o.len() == n, "length of the node ordering");
    for i in 0..o.len() {
        check(o[i] < n, "node ordering contains an invalid id");
        for j in 0..i { check(o[i] != o[j], "node ordering contains a node twice"); }
    }
}
pub fn c07(g: G, h: G) {
    let n = g.nodes();
    let f = match choose(2) { 0 => prepare(&g.input()), _ => prepare_with_params(&g.input(), &Params::new(FACTORS[choose(4)], 1, 0, sym(0, usize::MAX))) };
    let o = get_node_ordering(&f);
    check_perm(&o, n);
    check(o == f.get_node_ordering(), "the two ways to get the ordering differ");
    let f2 = match prepare_with_order(&g.input(), &o) { Ok(f) => f, Err(_) => { check(false, "own ordering refused"); return; } };
    check(f2.get_node_ordering() == o, "preparing with an order reports another order");
    if h.nodes() == n {
        let f3 = match prepare_with_order(&h.input(), &o) { Ok(f) => f, Err(_) => { check(false, "ordering of a graph with the same number of nodes refused"); return; } };
        check(get_node_ordering(&f3) == o, "preparing with an order reports another order");
        reach(1);
    }
    reach(0);
}
pub fn c07_order(g: G) {
    let n = g.nodes();
    let o = permutation(n);
    let f = prepare_with_order_with_params(&g.input(), &o, &ParamsWithOrder::new(sym(0, usize::MAX)));
    let f = match f { Ok(f) => f, Err(_) => { check(false, "valid order refused"); return; } };
    check(f.get_node_ordering() == o, "preparing with an order reports another order");
    reach(0);
}
/// any order of a larger graph without symbolic weights: positions picked by the seed
pub fn c07_mid(n: usize, m: usize, k: usize, variants: usize) {
    let g = seeded(n, m, k, param() * 100 + choose(variants));
    let f = prepare(&g.input());
    let o = get_node_ordering(&f);
    check_perm(&o, n);
    let f2 = prepare_with_order(&g.input(), &o).unwrap();
    check(f2.get_node_ordering() == o, "preparing with an order reports another order");
    let mut r = Rng(param() as u64);
    let mut p = o.clone();
    for i in (1..n).rev() { let j = r.below(i + 1); p.swap(i, j); }
    let f3 = prepare_with_order(&g.input(), &p).unwrap();
    check(f3.get_node_ordering() == p, "preparing with an order reports another order");
    reach(0);
}
/// many nodes (ids beyond 16 bits), few edges: any of the given orders is reported back
pub fn c07_big(n: usize) {
    let g = big(n, 1);
    let input = g.input();
    let o: Vec<usize> = match choose(3) { 0 => (0..n).rev().collect(), 1 => (0..n).map(|i| (i * 7919 + 5) % n).collect(), _ => (0..n).map(|i| (i + 1) % n).collect() };
    let f = prepare_with_order(&input, &o).unwrap();
    let p = get_node_ordering(&f);
    check(p == o, "preparing with an order reports another order");
    let f2 = if flip() { prepare(&input) } else { f };
    let p = get_node_ordering(&f2);
    let mut seen = vec![false; n];
    let mut ok = p.len() == n;
    for &x in &p { if x < n && !seen[x] { seen[x] = true; } else { ok = false; } }
    check(ok, "node ordering is not a permutation");
    reach(0);
}
/// C01, C02, C06, C12, C13 on a graph with many nodes
pub fn c01_big(n: usize, k: usize) {
    let g = big(n, k);
    let f = match choose(3) { 0 => prepare(&g.input()), 1 => { let o: Vec<usize> = (0..n).rev().collect(); prepare_with_order(&g.input(), &o).unwrap() } _ => { let o: Vec<usize> = (0..n).collect(); prepare_with_order_with_params(&g.input(), &o, &ParamsWithOrder::new(0)).unwrap() } };
    check(f.get_num_nodes() == n, "node count of the prepared graph");
    let mut c = create_calculator(&f);
    let ids = [0, 3, 65534, 65535, 65536, 65537, n - 1];
    let s = ids[choose(ids.len())];
    let d = g.dists(s);
    for t in ids { let p = c.calc_path(&f, s, t); check_query_d(&g, &d, s, t, &p); }
    reach(0);
}
/// a node with many neighbours (and a ring around it)
pub fn wheel(n: usize, k: usize) -> G {
    let mut r = Rng(param() as u64 + 3);
    let c = n / 2;
    let mut e = vec![];
    for i in 0..n { if i != c { e.push((i, c, 2 + r.below(9))); e.push((c, i, 2 + r.below(9))); let j = if i + 1 == c { i + 2 } else { i + 1 }; if j < n { e.push((i, j, 1 + r.below(12))); } } }
    for i in 0..k { let j = (i * 5 + 1) * 7 % e.len(); e[j].2 = sym(1, WMAX); }
    G { n, e }
}
pub fn c01_wheel(n: usize, k: usize, limits: bool) {
    let g = wheel(n, k);
    let f = if limits { let o: Vec<usize> = if flip() { (0..n).collect() } else { (0..n).map(|i| (i + n / 2) % n).collect() }; prepare_with_order_with_params(&g.input(), &o, &ParamsWithOrder::new(choose(3))).unwrap() } else { prepare(&g.input()) };
    let mut c = create_calculator(&f);
    let s = choose(n);
    let d = g.dists(s);
    for t in 0..n { let p = c.calc_path(&f, s, t); check_query_d(&g, &d, s, t, &p); }
    reach(0);
}
/// C16: a single edge of nearly the maximum weight in an acyclic graph; every sum that occurs is the weight of a path
pub fn c16_dag(n: usize, order: bool) {
    let mut e = vec![];
    for a in 0..n { for b in a + 1..n { e.push((a, b)); } }
    let heavy = choose(e.len());
    let mut g = G { n, e: vec![] };
    for (i, &(a, b)) in e.iter().enumerate() {
        if i == heavy { g.e.push((a, b, 0)); }
        else if b == a + 1 || flip() { g.e.push((a, b, sym(1, 1000))); }
    }
    // the heavy edge may weigh as much as keeps the weight of every path below the maximum weight
    let h = g.e.iter().position(|x| x.2 == 0).unwrap();
    let w = sym(1, usize::MAX - 1);
    for s in 0..n { for t in 0..n { for (v, rest) in g.paths(s, t) { if v.windows(2).any(|x| x[0] == e[heavy].0 && x[1] == e[heavy].1) { assume(le(rest, usize::MAX - 1 - w)); } } } }
    g.e[h].2 = w;
    let f = if order { let o = permutation(n); prepare_with_order_with_params(&g.input(), &o, &ParamsWithOrder::new(if flip() { 0 } else { usize::MAX })).unwrap() } else { prepare(&g.input()) };
    let s = choose(n);
    let t = choose(n);
    let p = calc_path(&f, s, t);
    check_query(&g, s, t, &p);
    reach(0);
}
/// C16: weights right up to the limit; every sum of edge and initial weights stays below the maximum
pub fn c16(n: usize, k: usize) {
    // twice the sum of k edge weights and two initial weights is still representable
    let lim = (usize::MAX - 1) / (2 * (k + 2));
    let mut g = InputGraph::new();
    let mut cnt = 0;
    let mut nodes = 0;
    for a in 0..n { for b in 0..n { if a != b && cnt < k && flip() { cnt += 1; g.add_edge(a, b, sym(1, lim)); nodes = nodes.max(a.max(b) + 1); } } }
    g.freeze();
    check(g.get_num_nodes() == nodes && g.get_num_edges() == cnt, "size of the input graph");
    let f = any_prepare(&g);
    check(f.get_num_nodes() == nodes, "size of the prepared graph");
    if nodes == 0 { reach(1); return; }
    let (s, t) = (choose(nodes), choose(nodes));
    let mut c = create_calculator(&f);
    let p = if flip() { c.calc_path(&f, s, t) } else {
        c.calc_path_multiple_sources_and_targets(&f, vec![(s, sym(0, lim))], vec![(t, sym(0, lim))])
    };
    if let Some(p) = &p { check(p.get_weight() < usize::MAX && !p.get_nodes().is_empty(), "found path without weight or nodes"); reach(2); }
    let _ = c.calc_path(&f, t, s);
    reach(0);
}
/// one heavy edge: a single weight of up to the maximum, the others symbolic within what is left
pub fn c16_heavy(pairs: &[(usize, usize)], n: usize, order: bool) {
    let mut g = InputGraph::new();
    let heavy = choose(pairs.len());
    for (i, &(a, b)) in pairs.iter().enumerate() {
        // contracting adds two arcs, queries add two distances: a weight can occur twice in a sum
        let w = if i == heavy { sym(1, usize::MAX / 2 - 1000) } else { sym(1, 100) };
        g.add_edge(a, b, w);
    }
    g.freeze();
    let f = if order { let o = permutation(n); prepare_with_order(&g, &o).unwrap() } else { prepare(&g) };
    let mut c = create_calculator(&f);
    let s = choose(n);
    for t in 0..n { if let Some(p) = c.calc_path(&f, s, t) { observe(1, p.get_weight()); check(!p.get_nodes().is_empty(), "no nodes"); } }
    reach(0);
}
/// nodes without edges: ids are spread out
pub fn c16_gaps(id_max: usize) {
    let mut g = InputGraph::new();
    let (a, b, x) = (choose(id_max), choose(id_max), choose(id_max));
    let w = sym(1, WMAX);
    g.add_edge(a, b, w);
    g.add_edge(b, x, w);
    g.freeze();
    let n = g.get_num_nodes();
    let f = any_prepare_small(&g);
    check(f.get_num_nodes() == n, "size of the prepared graph");
    if n == 0 { check(get_node_ordering(&f).is_empty(), "ordering of an empty graph"); reach(1); return; }
    let mut c = create_calculator(&f);
    let s = choose(n);
    for t in 0..n {
        let p = c.calc_path(&f, s, t);
        let mut d = None;
        if s == t { d = Some(0) }
        else if s == a && a != b && t == b { d = Some(w) }
        else if s == b && b != x && t == x { d = Some(w) }
        else if s == a && a != b && b != x && t == x { d = Some(2 * w) }
        match (p, d) {
            (None, None) => {}
            (Some(p), Some(d)) => check(eq(p.get_weight(), d), "weight"),
            (Some(_), None) => check(false, "a path was found but none exists"),
            (None, Some(_)) => check(false, "a path exists but none was found"),
        }
    }
    reach(0);
}
fn any_prepare_small(g: &InputGraph) -> FastGraph {
    let n = g.get_num_nodes();
    match choose(3) { 0 => prepare(g), 1 => { let o: Vec<usize> = (0..n).collect(); prepare_with_order(g, &o).unwrap() }
        _ => { let o: Vec<usize> = (0..n).rev().collect(); prepare_with_order_with_params(g, &o, &ParamsWithOrder::new(0)).unwrap() } }
}
/// the empty graph, in every mode
pub fn c16_empty() {
    let mut g = InputGraph::new();
    if flip() { g.add_edge(1, 1, sym(0, WMAX)); g.add_edge_bidir(0, 5, 0); }
    g.freeze();
    check(g.get_num_nodes() == 0 && g.get_num_edges() == 0, "empty graph is not empty");
    let f = any_prepare(&g);
    check(f.get_num_nodes() == 0 && f.get_num_out_edges() == 0 && f.get_num_in_edges() == 0 && f.get_node_ordering().is_empty(), "prepared empty graph");
    let _ = create_calculator(&f);
    reach(0);
}
/// an order of the right length that names a node that does not exist
pub fn c04_bad(g: G) {
    let n = g.nodes();
    if n == 0 { return; }
    let input = g.input();
    let mut order: Vec<usize> = if flip() { (0..n).collect() } else { (0..n).rev().collect() };
    order[choose(n)] = sym(n, usize::MAX);
    let r = flip();
    reach(0);
    must_panic("order with an invalid node accepted", || if r { prepare_with_order(&input, &order).is_ok() } else { prepare_with_order_with_params(&input, &order, &ParamsWithOrder::new(3)).is_ok() });
}
