//! C24: graphs are values. C25: memory in use.
use crate::api::*;
use crate::capture::*;
use crate::graphs::*;
use crate::input::*;
use crate::structure::*;
use fast_paths::*;

fn numbers<T: serde::Serialize>(x: &T) -> Vec<usize> { let mut v = vec![]; capture(x).flat(&mut v); v }
fn add(g: &mut InputGraph, h: &mut Hist, n: usize, some: bool) {
    let (a, b, w, bi) = if some { (choose(n), choose(n), sym(0, WMAX), flip()) } else { let a = choose(n); (a, (a + 1) % n, sym(1, WMAX), false) };
    let r = if bi { g.add_edge_bidir(a, b, w) } else { g.add_edge(a, b, w) };
    check(r == h.add(a, b, w, bi), "number of added edges");
}
/// a copy of an input graph in any state, then changes to either
pub fn copies(n: usize, k: usize) {
    let mut g = InputGraph::new();
    let mut h = Hist::default();
    for _ in 0..choose(k + 1) { add(&mut g, &mut h, n, true); }
    let state = choose(3);
    if state > 0 { g.freeze(); }
    if state > 1 { g.thaw(); }
    let mut c = match choose(3) {
        0 => g.clone(),
        // over another graph, frozen or not
        k => { let mut x = InputGraph::new(); x.add_edge(n, n + 1, 3); x.add_edge(1, 0, 3); if k == 2 { x.freeze(); } x.clone_from(&g); x }
    };
    let mut hc = h.clone();
    reach(0);
    if state == 1 {
        check_same(&numbers(&g), &numbers(&c), "the copy differs");
        check_frozen(&h, &c);
        // one of them is changed, the other one stays frozen and as it was
        let (x, hx, y, hy) = if flip() { (&mut g, &mut h, &mut c, &hc) } else { (&mut c, &mut hc, &mut g, &h) };
        x.thaw();
        add(x, hx, n, false);
        check_frozen(hy, y);
        x.freeze();
        check_frozen(hx, x);
        check_frozen(hy, y);
        return;
    }
    for _ in 0..2 { if flip() { add(&mut g, &mut h, n, false) } else { add(&mut c, &mut hc, n, false) } }
    if flip() {
        g.freeze();
        check_frozen(&h, &g);
        refused("a copy of an unfrozen graph can be read", || c.get_num_nodes());
        add(&mut c, &mut hc, n, false);
        drop(g);
        c.freeze();
    } else {
        c.freeze();
        check_frozen(&hc, &c);
        refused("an unfrozen graph can be read after its copy was frozen", || g.get_num_nodes());
        g.freeze();
        check_frozen(&h, &g);
    }
    check_frozen(&hc, &c);
}
/// preparing and querying change neither graph, later changes of one do not change the other
pub fn apart(g0: G) {
    let n = g0.nodes();
    let mut g = g0.input();
    let before = numbers(&g);
    let o: Vec<usize> = (0..n).rev().collect();
    let way = choose(3);
    let f = match way { 0 => prepare(&g), 1 => prepare_with_order(&g, &o).unwrap(), _ => prepare_with_params(&g, &Params::new(0.3, 5, 0, 7)) };
    check_same(&before, &numbers(&g), "preparing changed the input graph");
    let contents = flat(&f);
    let c = if flip() { f.clone() } else { let mut x = prepare(&G { n: 4, e: vec![(0, 3, 5), (3, 1, 6), (1, 0, 2)] }.input()); if flip() { x.clone_from(&prepare(&G { n: 7, e: vec![(6, 1, 1)] }.input())); } x.clone_from(&f); x };
    check_same(&contents, &flat(&c), "a copy of a prepared graph differs");
    check(c.get_num_nodes() == n && c.get_num_out_edges() == f.get_num_out_edges() && c.get_num_in_edges() == f.get_num_in_edges(), "sizes of a copy");
    // the input graph goes on
    g.thaw();
    if n > 0 { g.add_edge(0, n, sym(1, WMAX)); g.add_edge(n, n / 2, 1); }
    g.freeze();
    let f2 = prepare(&g);
    check_same(&contents, &flat(&f), "later changes of the input graph changed the prepared graph");
    if n > 0 {
        let (s, t) = (choose(n), choose(n));
        let p = create_calculator(&f).calc_path(&f, s, t);
        check_query(&g0, s, t, &p);
        let _ = calc_path(&f2, s, t);
        check_same(&contents, &flat(&f), "a query changed the prepared graph");
        drop(f);
        drop(f2);
        drop(g);
        check_same(&contents, &flat(&c), "the copy changed");
        let p = calc_path(&c, s, t);
        check_query(&g0, s, t, &p);
        reach(0);
    }
}
/// memory in use after the same things were done again and again
pub fn memory(g: G, rounds: usize) {
    let n = g.nodes();
    for e in &g.e { assume(lt(e.2, 1 << 20)); }
    let input = g.input();
    let f = prepare(&input);
    let mut c = create_calculator(&f);
    let mut other = g.input();
    let mut round = |c: &mut PathCalculator| {
        for s in 0..n { for t in 0..n { c.calc_path(&f, s, t); } }
        for s in 0..n { c.calc_path_multiple_sources_and_targets(&f, vec![(s, 3), (n / 2, 1)], vec![(0, 0), ((s * 7) % n, 2)]); calc_path(&f, s, n - 1); }
        calc_path_multiple_sources_and_targets(&f, vec![(0, 3), (n / 2, 1)], vec![(n - 1, 0)]);
        drop(create_calculator(&f));
        get_node_ordering(&f);
        drop(prepare(&input));
        drop(prepare_with_order(&input, &f.get_node_ordering()).unwrap());
        drop(f.clone());
        drop(FastGraph32::new(&f).convert_to_usize());
        other.thaw();
        other.add_edge(0, 1, 1);
        other.add_edge_bidir(1, 2 % n, 1);
        other.freeze();
        drop(other.clone());
        drop(g.input());
    };
    round(&mut c);
    round(&mut c);
    let before = heap();
    for _ in 0..rounds { round(&mut c); }
    let after = heap();
    check(after <= before + rounds, "memory in use grows with every call");
    reach(0);
}
/// memory of the graphs and of a calculator at two sizes
pub fn memory_size(m: usize, k: usize, lo: usize) {
    let x = sym(lo, WMAX);
    let one = |m: usize| {
        let mut r = Rng(7);
        let mut e = vec![];
        for i in 1..m { let (a, w) = (if r.below(2) == 0 { i - 1 } else { r.below(i) }, if i == m / 2 { x } else { 5 + r.below(90) }); e.push((i, a, w)); e.push((a, i, w)); }
        let a = heap();
        let mut g = InputGraph::new();
        for &(a, b, w) in &e { g.add_edge(a, b, w); g.add_edge(a, b, w); }
        g.freeze();
        let b = heap();
        let f = prepare(&g);
        let c = heap();
        let mut calc = create_calculator(&f);
        let d = heap();
        for i in 0..200 { calc.calc_path(&f, (i * 37) % m, (i * i + 11) % m); }
        let q = heap();
        drop(calc);
        drop(f);
        let z = heap();
        (b - a, c - b, d - c, q - d, z - b)
    };
    one(20);
    let (a, b) = (one(m), one(m * k));
    check(b.0 <= 2 * k * a.0 && b.1 <= 2 * k * a.1 && b.2 <= 2 * k * a.2 && b.3 <= 2 * k * (a.3 + 1000), "memory grows faster than the graph");
    check(a.4 == 0 && b.4 == 0, "dropped graphs and calculators still use memory");
    reach(0);
}
pub fn one_weight_chain(n: usize) -> G {
    let x = sym(1, WMAX);
    G { n, e: (1..n).flat_map(|i| { let w = if i == n / 2 { x } else { 3 + i * 7 % 11 }; [(i, i - 1, w), (i - 1, i, w)] }).collect() }
}
