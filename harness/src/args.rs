//! C15: invalid arguments of queries.
use crate::api::*;
use crate::graphs::*;
use fast_paths::*;

/// a node id that is not a node of a graph with n nodes
fn bad_id(n: usize) -> usize { sym(n, usize::MAX) }
/// valid queries after a refused one
fn after(g: &G, f: &FastGraph, c: &mut PathCalculator) {
    let n = g.nodes();
    if n == 0 { return; }
    let (s, t) = (choose(n), choose(n));
    match attempt(|| c.calc_path(f, s, t)) { Some(p) => check_query(g, s, t, &p), None => check(false, "valid query refused") }
}
pub fn c15_ids(g: G) {
    let n = g.nodes();
    let f = prepare(&g.input());
    let mut c = create_calculator(&f);
    if n > 0 && flip() { let _ = c.calc_path(&f, choose(n), choose(n)); }
    if n == 0 {
        reach(1);
        let (a, b) = (bad_id(0), bad_id(0));
        must_panic("query on an empty graph answered", || c.calc_path(&f, a, b).is_some());
        return;
    }
    let (s, t) = match choose(3) { 0 => (bad_id(n), choose(n)), 1 => (choose(n), bad_id(n)), _ => { let x = bad_id(n); if flip() { (x, x) } else { (x, bad_id(n)) } } };
    reach(0);
    if flip() { refused("query with an invalid node answered", || c.calc_path(&f, s, t).is_some()); after(&g, &f, &mut c); } else { must_panic("query with an invalid node answered", || calc_path(&f, s, t).is_some()) }
}
/// lists: an invalid id anywhere, with any weight; empty lists
pub fn c15_lists(g: G, max: usize) {
    let n = g.nodes();
    let f = prepare(&g.input());
    let mut c = create_calculator(&f);
    let (ls, lt) = (choose(max + 1), choose(max + 1));
    let mut list = |l: usize, bad: usize| -> Vec<(usize, usize)> {
        (0..l).map(|i| (if i == bad || n == 0 { bad_id(n) } else { choose(n) }, if flip() { sym(0, WMAX) } else { usize::MAX })).collect()
    };
    let (bs, bt) = if ls == 0 || lt == 0 { (usize::MAX, usize::MAX) } else { let k = choose(ls + lt); if k < ls { (k, usize::MAX) } else { (usize::MAX, k - ls) } };
    let ss = list(ls, bs);
    let ts = list(lt, bt);
    if ls == 0 || lt == 0 { reach(1); } else { reach(0); }
    if flip() {
        refused("query with invalid lists answered", || c.calc_path_multiple_sources_and_targets(&f, ss, ts).is_some());
        if n > 0 { let (s, t) = if flip() { (0, n - 1) } else { (n - 1, 0) }; match attempt(|| c.calc_path(&f, s, t)) { Some(p) => check_query(&g, s, t, &p), None => check(false, "valid query refused") } }
    } else { must_panic("query with invalid lists answered", || calc_path_multiple_sources_and_targets(&f, ss, ts).is_some()) }
}
/// prepared graph of another size
pub fn c15_size(g: G, max: usize) {
    let n = g.nodes();
    let f = prepare(&g.input());
    let k = choose(max + 1);
    let mut c = PathCalculator::new(k);
    let (s, t) = (choose(n.max(k).max(1)), choose(n.max(k).max(1)));
    if k == n {
        if s < n && t < n { let p = c.calc_path(&f, s, t); check_query(&g, s, t, &p); reach(1); }
        return;
    }
    reach(0);
    if flip() { must_panic("prepared graph of another size accepted", || c.calc_path(&f, s, t).is_some()) }
    else { must_panic("prepared graph of another size accepted", || c.calc_path_multiple_sources_and_targets(&f, vec![(s, 0)], vec![(t, 0)]).is_some()) }
}
/// a calculator that answered a graph refuses one of another size afterwards
pub fn c15_switch(g: G, h: G) {
    let (n, m) = (g.nodes(), h.nodes());
    if n == 0 || m == 0 || n == m { return; }
    let f = prepare(&g.input());
    let f2 = prepare(&h.input());
    let mut c = create_calculator(&f);
    let p = c.calc_path(&f, choose(n), choose(n));
    let _ = p;
    let k = n.min(m);
    let (s, t) = (choose(k), choose(k));
    reach(0);
    refused("prepared graph of another size accepted", || c.calc_path(&f2, s, t).is_some());
    after(&g, &f, &mut c);
}

/// long lists: the invalid id may be at any position
pub fn c15_long(len: usize) {
    let g = G { n: 4, e: vec![(0, 1, 3), (1, 2, sym(1, WMAX)), (2, 0, 4), (3, 1, 1)] };
    let f = prepare(&g.input());
    let mut c = create_calculator(&f);
    let k = choose(2 * len);
    let list = |at: usize| -> Vec<(usize, usize)> { (0..len).map(|i| (if i == at { bad_id(4) } else { i % 4 }, if i % 5 == 3 { usize::MAX } else { i })).collect() };
    let ss = list(k);
    let ts = list(k.wrapping_sub(len));
    reach(0);
    refused("query with an invalid list answered", || c.calc_path_multiple_sources_and_targets(&f, ss, ts).is_some());
    let (s, t) = (choose(4), choose(4));
    match attempt(|| c.calc_path(&f, s, t)) { Some(p) => check_query(&g, s, t, &p), None => check(false, "valid query refused") }
}
