//! C22: results as values. C23: the shorthand functions and their explicit forms.
use crate::api::*;
use crate::graphs::*;
use crate::structure::*;
use fast_paths::*;

const ANY: usize = usize::MAX;
fn any_path(len: usize) -> (ShortestPath, [usize; 3], Vec<usize>) {
    let v: Vec<usize> = (0..choose(len + 1)).map(|_| sym(0, ANY)).collect();
    let k = [sym(0, ANY), sym(0, ANY), sym(0, ANY)];
    (ShortestPath::new(k[0], k[1], k[2], v.clone()), k, v)
}
fn check_is(p: &ShortestPath, k: &[usize; 3], v: &[usize]) {
    check(and(eq(p.get_source(), k[0]), and(eq(p.get_target(), k[1]), eq(p.get_weight(), k[2]))), "accessors");
    check_same(p.get_nodes(), v, "nodes");
    check(p.is_found() == (k[2] != WEIGHT_MAX), "is_found");
}
/// two results with any contents
pub fn c22(len: usize) {
    let (a, ka, va) = any_path(len);
    let (b, kb, vb) = any_path(len);
    check_is(&a, &ka, &va);
    check_is(&b, &kb, &vb);
    let same = and(eq(ka[0], kb[0]), and(eq(ka[1], kb[1]), eq(ka[2], kb[2])));
    let e = a == b;
    observe(1, e as usize);
    check(if e { same } else { !same }, "equality of results");
    check((b == a) == e && (a != b) != e, "equality of results is not symmetric");
    let c = a.clone();
    check_is(&c, &ka, &va);
    check(c == a && a == a, "a copy differs");
    reach(0);
}
pub fn c22_special() {
    let (x, y) = (sym(0, ANY), sym(0, ANY));
    check_is(&ShortestPath::singular(x), &[x, x, WEIGHT_ZERO], &[x]);
    check_is(&ShortestPath::none(x, y), &[x, y, WEIGHT_MAX], &[]);
    check(!ShortestPath::none(x, y).is_found() && ShortestPath::singular(x).is_found(), "is_found");
    reach(0);
}
/// results of queries against values made by hand
pub fn c22_query(g: G) {
    let n = g.nodes();
    if n == 0 { return; }
    let f = prepare(&g.input());
    let (s, t) = (choose(n), choose(n));
    let p = calc_path(&f, s, t);
    let p = match p { None => return, Some(p) => p };
    check_is(&p, &[s, t, p.get_weight()], &p.get_nodes().clone());
    check(p == ShortestPath::new(s, t, p.get_weight(), vec![]), "nodes count when comparing results");
    check(p != ShortestPath::none(s, t), "a found path equals none");
    check((p == ShortestPath::singular(s)) == (s == t), "comparison with a singular path");
    reach(0);
}

fn same_graph(a: &FastGraph, b: &FastGraph) { check_same(&flat(a), &flat(b), "a shorthand and its explicit form prepare different graphs"); }
fn same_path(a: &Option<ShortestPath>, b: &Option<ShortestPath>) {
    match (a, b) {
        (None, None) => {}
        (Some(a), Some(b)) => check_is(a, &[b.get_source(), b.get_target(), b.get_weight()], b.get_nodes()),
        _ => check(false, "only one of a shorthand and its explicit form finds a path"),
    }
}
fn forms(input: &InputGraph, order: &[usize]) -> FastGraph {
    let f = prepare(input);
    same_graph(&f, &prepare_with_params(input, &Params::default()));
    same_graph(&f, &FastGraphBuilder::build(input));
    same_graph(&f, &FastGraphBuilder::build_with_params(input, &Params::default()));
    let r = |x: Result<FastGraph, String>| -> FastGraph { match x { Ok(f) => f, Err(_) => { check(false, "valid order refused"); prepare(input) } } };
    let h = r(prepare_with_order(input, order));
    same_graph(&h, &r(prepare_with_order_with_params(input, order, &ParamsWithOrder::default())));
    same_graph(&h, &r(FastGraphBuilder::build_with_order(input, order)));
    same_graph(&h, &r(FastGraphBuilder::build_with_order_with_params(input, order, &ParamsWithOrder::default())));
    let (x, y) = (get_node_ordering(&h), h.get_node_ordering());
    check(x == y && x == order, "node ordering");
    check(get_node_ordering(&f) == f.get_node_ordering(), "node ordering");
    if flip() { f } else { h }
}
fn queries(f: &FastGraph, s: usize, t: usize) {
    let p = calc_path(f, s, t);
    observe(1, p.as_ref().map_or(ANY, |p| p.get_weight()));
    same_path(&p, &create_calculator(f).calc_path(f, s, t));
    same_path(&p, &PathCalculator::new(f.get_num_nodes()).calc_path(f, s, t));
    same_path(&p, &calc_path_multiple_sources_and_targets(f, vec![(s, 0)], vec![(t, 0)]));
    let mut c = create_calculator(f);
    same_path(&p, &c.calc_path_multiple_sources_and_targets(f, vec![(s, 0)], vec![(t, 0)]));
}
pub fn c23(g: G) {
    let n = g.nodes();
    let mut o: Vec<usize> = (0..n).collect();
    if n > 0 { let k = choose(n); o.rotate_left(k); }
    if flip() { o.reverse(); }
    let f = forms(&g.input(), &o);
    if n == 0 { return; }
    queries(&f, choose(n), choose(n));
    reach(0);
}
/// both forms for weighted sources and targets
pub fn c23_multi(g: G) {
    let n = g.nodes();
    if n == 0 { return; }
    let f = prepare(&g.input());
    let mut list = || -> Vec<(usize, usize)> { (0..1 + choose(2)).map(|_| (choose(n), sym(0, WMAX))).collect() };
    let (ss, ts) = (list(), list());
    let p = calc_path_multiple_sources_and_targets(&f, ss.clone(), ts.clone());
    same_path(&p, &create_calculator(&f).calc_path_multiple_sources_and_targets(&f, ss, ts));
    reach(0);
}
/// orders of the wrong length: refused by every form
pub fn c23_len(g: G, max: usize) {
    let input = g.input();
    let o: Vec<usize> = (0..choose(max + 1)).collect();
    let ok = o.len() == g.nodes();
    check(prepare_with_order(&input, &o).is_ok() == ok, "order");
    check(prepare_with_order_with_params(&input, &o, &ParamsWithOrder::default()).is_ok() == ok, "order");
    check(FastGraphBuilder::build_with_order(&input, &o).is_ok() == ok, "order");
    check(FastGraphBuilder::build_with_order_with_params(&input, &o, &ParamsWithOrder::default()).is_ok() == ok, "order");
    reach(0);
}
/// a grid of w x w nodes: large enough for the limits on the witness search to matter
pub fn c23_grid(w: usize) {
    let mut r = Rng(param() as u64 + 8);
    let n = w * w;
    let mut g = G { n, e: vec![(1, n - 2, sym(500, WMAX))] };
    for v in 0..n { for (u, ok) in [(v + 1, v % w + 1 < w), (v + w, v + w < n)] { if ok { g.e.push((v, u, 1 + r.below(20))); g.e.push((u, v, 1 + r.below(20))); } } }
    let mut o: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() { let j = r.below(i + 1); o.swap(i, j); }
    let f = forms(&g.input(), &o);
    queries(&f, 0, n - 1);
    queries(&f, r.below(n), r.below(n));
    reach(0);
}
