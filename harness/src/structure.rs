//! C08, C09: the contents of prepared graphs.
use crate::api::*;
use crate::capture::*;
use crate::graphs::*;
use fast_paths::*;

pub struct Arcs { pub base: Vec<usize>, pub adj: Vec<usize>, pub w: Vec<usize>, pub rin: Vec<usize>, pub rout: Vec<usize>, pub first: Vec<usize> }
pub fn arcs(v: &V, edges: &str, pe: usize, first: &str, pf: usize) -> Arcs {
    let es = v.f(edges, pe).seq();
    let g = |n: &str, p: usize| es.iter().map(|e| e.f(n, p).u()).collect::<Vec<_>>();
    Arcs { base: g("base_node", 0), adj: g("adj_node", 1), w: g("weight", 2), rin: g("replaced_in_edge", 3), rout: g("replaced_out_edge", 4),
        first: v.f(first, pf).seq().iter().map(|x| x.u()).collect() }
}
/// every stored arc is justified by the input graph
pub fn check_structure(g: &G, f: &FastGraph) {
    let n = g.nodes();
    let v = capture(f);
    let fwd = arcs(&v, "edges_fwd", 2, "first_edge_ids_fwd", 3);
    let bwd = arcs(&v, "edges_bwd", 4, "first_edge_ids_bwd", 5);
    let o = f.get_node_ordering();
    check(o.len() == n && f.get_num_nodes() == n, "number of nodes");
    check(f.get_num_out_edges() == fwd.w.len() && f.get_num_in_edges() == bwd.w.len(), "number of arcs");
    let mut rank = vec![usize::MAX; n];
    for i in 0..n { check(o[i] < n && rank[o[i]] == usize::MAX, "ordering is not a permutation"); rank[o[i]] = i; }
    let mut shortcuts = false;
    for (is_fwd, a) in [(true, &fwd), (false, &bwd)] {
        let mut count = 0;
        for x in 0..n {
            let (b, e) = if is_fwd { (f.begin_out_edges(x), f.end_out_edges(x)) } else { (f.begin_in_edges(x), f.end_in_edges(x)) };
            check(b <= e && e <= a.w.len(), "arc range");
            for i in b..e {
                count += 1;
                check(a.base[i] == x, "arc stored at another node");
                let y = a.adj[i];
                check(y < n && rank[y] > rank[x], "arc does not lead to a later node");
                for j in b..i { check(a.adj[j] != y, "two arcs for the same nodes and direction"); }
                let (from, to) = if is_fwd { (x, y) } else { (y, x) };
                let (p, q) = (a.rin[i], a.rout[i]);
                if p == usize::MAX || q == usize::MAX {
                    check(p == q, "half a shortcut");
                    match g.edge(from, to) { None => check(false, "arc is not an input edge"), Some(w) => check(eq(w, a.w[i]), "weight of an arc is not the weight of its edge") }
                } else {
                    shortcuts = true;
                    check(p < bwd.w.len() && q < fwd.w.len(), "shortcut refers to missing arcs");
                    if p >= bwd.w.len() || q >= fwd.w.len() { return; }
                    check(bwd.base[p] == fwd.base[q], "arcs of a shortcut do not meet");
                    let c = bwd.base[p];
                    check(c < n && rank[c] < rank[x] && rank[c] < rank[y], "shortcut via a later node");
                    check(bwd.adj[p] == from && fwd.adj[q] == to, "arcs of a shortcut do not join its end points");
                    check(eq(bwd.w[p] + fwd.w[q], a.w[i]), "weight of a shortcut is not the sum of its arcs");
                    check(p >= f.begin_in_edges(c) && p < f.end_in_edges(c) && q >= f.begin_out_edges(c) && q < f.end_out_edges(c), "shortcut refers to arcs outside their node's range");
                }
            }
        }
        check(count == a.w.len(), "arcs outside every node's range");
    }
    if shortcuts { reach(1); }
    // one observation, so that the numbers of the native run are compared with the engine's
    let mut h = 0usize;
    for i in 0..fwd.w.len() { h = h.wrapping_mul(31).wrapping_add(fwd.adj[i]); }
    observe(3, h);
}
pub fn c08(g: G) {
    let f = crate::core::any_prepare(&g.input());
    check_structure(&g, &f);
    reach(0);
}
pub fn c08_default(g: G) {
    let f = prepare(&g.input());
    check_structure(&g, &f);
    reach(0);
}
pub fn c08_mid(n: usize, m: usize, k: usize, variants: usize) {
    let g = seeded(n, m, k, param() * 100 + choose(variants));
    let f = if flip() { prepare(&g.input()) } else { prepare_with_params(&g.input(), &Params::new(0.1, 3, 2, sym(0, usize::MAX))) };
    check_structure(&g, &f);
    reach(0);
}
pub fn flat<T: serde::Serialize>(t: &T) -> Vec<usize> { let mut v = vec![]; capture(t).flat(&mut v); v }
pub fn check_same(a: &[usize], b: &[usize], msg: &str) {
    check(a.len() == b.len(), msg);
    let mut all = true;
    for i in 0..a.len().min(b.len()) { all = and(all, eq(a[i], b[i])); }
    check(all, msg);
}
pub fn check_bytes(a: &[u8], b: &[u8], msg: &str) {
    check(a.len() == b.len(), msg);
    let mut all = true;
    for i in 0..a.len().min(b.len()) { all = and(all, eq(a[i] as usize, b[i] as usize)); }
    check(all, msg);
}
fn prep_mode(mode: usize, g: &InputGraph, lim: usize) -> FastGraph {
    match mode {
        0 => prepare(g),
        1 => prepare_with_params(g, &Params::new(0.3, lim, 1, 2)),
        2 => { let o: Vec<usize> = (0..g.get_num_nodes()).collect(); prepare_with_order(g, &o).unwrap() }
        _ => { let o: Vec<usize> = (0..g.get_num_nodes()).rev().collect(); prepare_with_order_with_params(g, &o, &ParamsWithOrder::new(lim)).unwrap() }
    }
}
/// the same graph twice: other insertion order, other hash seeds, repetition
pub fn c09(g: G, modes: usize) {
    seed(choose(2));
    let mode = choose(modes);
    let lim = if mode == 1 || mode == 3 { sym(0, usize::MAX) } else { 0 };
    let a = flat(&prep_mode(mode, &g.input(), lim));
    let mut h = g.clone();
    match choose(3) { 0 => {} 1 => h.e.reverse(), _ => { let k = h.e.len() / 2; h.e.rotate_left(k); } }
    seed(2 + choose(2));
    let b = flat(&prep_mode(mode, &h.input(), lim));
    check_same(&a, &b, "two preparations of the same graph differ");
    let c = flat(&prep_mode(mode, &h.input(), lim));
    check_same(&a, &c, "two preparations of the same graph differ");
    reach(0);
}
/// duplicates, loops and bidirectional additions that leave the same edges
pub fn c09_dups(g: G) {
    let a = flat(&prepare(&g.input()));
    let mut x = InputGraph::new();
    for &(p, q, w) in g.e.iter().rev() { let more = sym(0, WMAX); x.add_edge(p, q, w + more); x.add_edge(p, p, 3); x.add_edge(p, q, w); x.add_edge(p, q, w); }
    x.freeze();
    let b = flat(&prepare(&x));
    check_same(&a, &b, "two preparations of the same graph differ");
    reach(0);
}
/// a hub and two levels around it: many neighbours with equal priorities
pub fn c09_hub(n: usize) {
    let mut e = vec![];
    for i in 1..=n { e.push((0, i, 5)); e.push((i, 0, 7)); for j in 1..=n / 3 { e.push((i, n + 1 + (i * 3 + j) % (n / 2), 6)); } e.push((n + 1 + i % (n / 2), i, 2)); e.push((i, i % n + 1, 3)); }
    let k = choose(2);
    let input = |rev: bool| { let mut g = InputGraph::new(); let f = |x: &(usize, usize, usize), g: &mut InputGraph| { g.add_edge(x.0, x.1, x.2); }; if rev { for x in e.iter().rev() { f(x, &mut g); } } else { for x in &e { f(x, &mut g); } } g.freeze(); g };
    seed(choose(2));
    let a = bincode::serialize(&prep_mode(k, &input(false), 3)).unwrap();
    seed(2 + choose(2));
    let b = bincode::serialize(&prep_mode(k, &input(true), 3)).unwrap();
    check_bytes(&a, &b, "two preparations of the same graph differ");
    reach(0);
}
pub fn c09_mid(n: usize, m: usize, k: usize, variants: usize) {
    let g = seeded(n, m, k, param() * 100 + choose(variants));
    let mode = choose(4);
    let a = bincode::serialize(&prep_mode(mode, &g.input(), 3)).unwrap();
    let mut h = g.clone();
    h.e.reverse();
    seed(1 + choose(3));
    let b = bincode::serialize(&prep_mode(mode, &h.input(), 3)).unwrap();
    check_bytes(&a, &b, "two preparations of the same graph differ");
    reach(0);
}
/// many neighbours, streets, nested shortcuts, dense
pub fn c08_shape(shape: usize, n: usize) {
    let mut r = Rng(param() as u64 + 14);
    let mut e: Vec<E3> = vec![];
    match shape {
        0 => for a in 1..n { e.push((0, a, 1 + r.below(60))); e.push((a, 0, 1 + r.below(60))); }
        1 => for v in 0..n * n { for u in [(v % n + 1 < n).then(|| v + 1), (v + n < n * n).then(|| v + n)].into_iter().flatten() { e.push((v, u, 1 + r.below(20))); e.push((u, v, 1 + r.below(20))); } }
        2 => for a in 1..n { e.push((a - 1, a, 1 + r.below(60))); e.push((a, a - 1, 1 + r.below(60))); }
        _ => for a in 0..n { for b in 0..n { if a != b { e.push((a, b, 20 + r.below(40))); } } }
    }
    let k = e.len() / 2;
    e[k].2 = sym(1, WMAX);
    let g = G { n: e.iter().map(|x| x.0.max(x.1) + 1).max().unwrap(), e };
    let f = crate::big::prep(&g.input(), [0, 1, 5][choose(3)]);
    check_structure(&g, &f);
    reach(0);
}
/// preparing a larger graph twice
pub fn c09_shape(n: usize) {
    let mut r = Rng(param() as u64 + 15);
    let mut e: Vec<E3> = vec![];
    for v in 0..n * n { for u in [(v % n + 1 < n).then(|| v + 1), (v + n < n * n).then(|| v + n)].into_iter().flatten() { let w = 1 + r.below(3); e.push((v, u, w)); e.push((u, v, w)); } }
    let k = e.len() / 2;
    e[k].2 = sym(10, WMAX);
    let g = G { n: n * n, e };
    let mode = choose(2);
    let a = bincode::serialize(&prep_mode(mode, &g.input(), 3)).unwrap();
    let mut h = g.clone();
    h.e.reverse();
    h.e.rotate_left(n);
    seed(1 + choose(2));
    let b = bincode::serialize(&prep_mode(mode, &h.input(), 3)).unwrap();
    check_bytes(&a, &b, "two preparations of the same graph differ");
    reach(0);
}
/// a hub with `a` ways in and `b` ways out, contracted before its many neighbours, which all look alike
pub fn c09_fan(a: usize, b: usize) {
    let x = sym(1, WMAX);
    let mut e = vec![];
    for i in 1..=a { e.push((i, 0, if i == a / 2 { x } else { 5 })); e.push((a + b + 1 + i % 7, i, 2)); }
    for i in a + 1..=a + b { e.push((0, i, 7)); e.push((i, a + b + 1 + i % 7, 3)); }
    let p = || { let mut p = Params::new(0.0, 3, 3, 3); p.edge_quotient_factor = 0.0; p };
    let input = |rev: bool| { let mut g = InputGraph::new(); if rev { for x in e.iter().rev() { g.add_edge(x.0, x.1, x.2); } } else { for x in &e { g.add_edge(x.0, x.1, x.2); } } g.freeze(); g };
    seed(choose(2));
    let a = flat(&prepare_with_params(&input(false), &p()));
    seed(2 + choose(2));
    let b = flat(&prepare_with_params(&input(true), &p()));
    check_same(&a, &b, "two preparations of the same graph differ");
    reach(0);
}
