//! Work: what preparing and querying road-like graphs costs, and how it grows from one size to another.
use crate::api::*;
use crate::graphs::*;
use fast_paths::*;
use std::cell::RefCell;

type E = Vec<(usize, usize, usize)>;
fn both(e: &mut E, a: usize, b: usize, w: usize) { e.push((a, b, w)); e.push((b, a, w)); }
/// `m` places along a road, with dead ends
fn comb(m: usize, r: &mut Rng) -> (usize, E) {
    let mut e = vec![];
    for i in 0..m - 1 { both(&mut e, i, i + 1, 10 + r.below(90)); if i % 3 == 0 { both(&mut e, i, m + i / 3, 5 + r.below(9)); } }
    (m + (m - 2) / 3 + 1, e)
}
/// two parallel roads of `m` places
fn ladder(m: usize, r: &mut Rng) -> (usize, E) {
    let mut e = vec![];
    for i in 0..m { both(&mut e, 2 * i, 2 * i + 1, 10 + r.below(90)); if i + 1 < m { both(&mut e, 2 * i, 2 * i + 2, 10 + r.below(90)); both(&mut e, 2 * i + 1, 2 * i + 3, 10 + r.below(90)); } }
    (2 * m, e)
}
/// a tree: every place joins one of the places not long before it
fn tree(m: usize, r: &mut Rng) -> (usize, E) {
    let mut e = vec![];
    for i in 1..m { let j = if r.below(2) == 0 { i - 1 } else { r.below(i) }; both(&mut e, i, j, 10 + r.below(90)); }
    (m, e)
}
/// streets
fn grid(k: usize, r: &mut Rng) -> (usize, E) {
    let mut e = vec![];
    for v in 0..k * k { if v % k + 1 < k { both(&mut e, v, v + 1, 10 + r.below(90)); } if v + k < k * k { both(&mut e, v, v + k, 10 + r.below(90)); } }
    (k * k, e)
}
pub struct Costs { n: usize, arcs: usize, build: usize, prep: usize, again: usize, first: usize, later: usize, none: usize }
fn costs(shape: usize, m: usize, x: usize) -> Costs {
    let mut r = Rng(77);
    let (n, mut e) = match shape { 0 => comb(m, &mut r), 1 => ladder(m, &mut r), 2 => tree(m, &mut r), _ => grid(m, &mut r) };
    if shape == 4 { for x in &mut e { x.2 = 10; } }
    let k = e.len() / 2;
    e[k].2 = x;
    let n = n + 1;
    let (g, build) = cost(|| { let mut g = InputGraph::new(); for &(u, v, w) in &e { g.add_edge(u, v, w); g.add_edge(u, v, w + 1); } g.add_edge(n - 1, 0, 1); g.freeze(); g });
    let (f, prep) = cost(|| prepare(&g));
    let o = get_node_ordering(&f);
    let again = cost(|| prepare_with_order(&g, &o).unwrap()).1;
    let c = RefCell::new(create_calculator(&f));
    let run = |pairs: &Vec<(usize, usize)>| cost(|| for &(s, t) in pairs { c.borrow_mut().calc_path(&f, s, t); }).1;
    let pairs: Vec<_> = (0..16).map(|_| (r.below(n), r.below(n - 1))).collect();
    let first = run(&pairs);
    let none = run(&(0..16).map(|i| (i * (n - 2) / 16, n - 1)).collect());
    for i in 0..40 { c.borrow_mut().calc_path(&f, i % n, n / 2); c.borrow_mut().calc_path(&f, n / 3, n - 1); }
    let later = run(&pairs);
    Costs { n, arcs: f.get_num_out_edges() + f.get_num_in_edges(), build, prep, again, first, later, none }
}
/// Sizes m1 and m2 (`size` times as many nodes). Preparing may cost `prep` times as much, queries `query` times as much if their
/// paths do not get longer in proportion; `arcs`: stored arcs per 10 nodes.
pub fn scale(shape: usize, m1: usize, m2: usize, lo: usize, size: usize, prep: usize, query: usize, arcs: usize) {
    let x = sym(lo, WMAX);
    let h = if tries() > 1 { if shape >= 3 { 2 } else { 6 } } else { 1 };
    let slack = if tries() > 1 { 2 } else { 1 };
    let (prep, query, size) = (prep * slack, query * slack, size * slack);
    let (a, b) = (costs(shape, m1 * h, x), costs(shape, m2 * h, x));
    check(b.arcs * 10 <= arcs * b.n, "the prepared graph is not sparse");
    check(b.build <= 2 * size * a.build, "building grows faster than the graph");
    check(b.prep <= prep * a.prep, "preparing grows much faster than the graph");
    check(b.again <= prep * a.again, "preparing with an order grows much faster than the graph");
    check(query == 0 || b.first <= query * a.first, "queries grow with the graph");
    check(b.none <= query.max(3) * a.none, "queries without an answer grow with the graph");
    for c in [&a, &b] { check(2 * c.later <= 3 * slack * c.first, "queries get slower from one to the next"); }
    if MEASURE { for c in [&a, &b] { for (i, v) in [c.n, c.arcs, c.build, c.prep, c.again, c.first, c.later, c.none].into_iter().enumerate() { observe(i, v); } } }
    reach(0);
}
/// print the costs (for choosing the bounds)
const MEASURE: bool = false;
