//! C17, C18 and the reset markers: internals, reached through cfg(fpv).
use crate::api::*;
use crate::graphs::*;
use fast_paths::fpv::*;
use fast_paths::*;

/// how the arcs get into the graph: directly or as shortcuts, in different orders
fn build(g: &G) -> PreparationGraph {
    let mut p = PreparationGraph::new(g.n);
    let mut e = g.e.clone();
    match choose(2) { 0 => {} _ => e.reverse() }
    for &(a, b, w) in &e { p.add_edge(a, b, w); }
    p
}
fn arcs(p: &PreparationGraph, n: usize) -> G {
    let mut e = vec![];
    for a in 0..n { for x in p.get_out_edges(a) { e.push((a, x.adj_node, x.weight)); } }
    G { n, e }
}
fn check_views(p: &PreparationGraph, n: usize, gone: &[usize]) {
    let mut outs = 0;
    let mut ins = 0;
    for a in 0..n {
        outs += p.get_out_edges(a).len();
        ins += p.get_in_edges(a).len();
        if gone.contains(&a) { check(p.get_out_edges(a).is_empty() && p.get_in_edges(a).is_empty(), "an arc is left at the contracted node"); }
        for (i, x) in p.get_out_edges(a).iter().enumerate() {
            check(x.adj_node != a, "a loop was created");
            check(x.adj_node < n && !gone.contains(&x.adj_node), "an arc leads to the contracted node");
            for y in &p.get_out_edges(a)[..i] { check(y.adj_node != x.adj_node, "two arcs for the same ordered pair"); }
            let mut found = false;
            for y in p.get_in_edges(x.adj_node) { if y.adj_node == a { check(!found, "two arcs for the same ordered pair"); found = true; check(and(eq(x.weight, y.weight), eq(x.center_node, y.center_node)), "the two views of an arc differ"); } }
            check(found, "the incoming view misses an arc");
        }
    }
    check(outs == ins, "the incoming view has more arcs");
}
/// distances between the nodes not in `gone` are those of g
fn check_preserved(g: &G, q: &G, gone: &[usize]) {
    for s in 0..g.n { for t in 0..g.n {
        if s == t || gone.contains(&s) || gone.contains(&t) { continue; }
        let (a, b) = (g.paths(s, t), q.paths(s, t));
        check(a.is_empty() == b.is_empty(), "contraction changed whether a path exists");
        let mut all = true;
        for (_, x) in &a { let mut any = false; for (_, y) in &b { any = or(any, le(*y, *x)); } all = and(all, any); }
        check(all, "contraction increased a distance");
        let mut all = true;
        for (_, y) in &b { let mut any = false; for (_, x) in &a { any = or(any, le(*x, *y)); } all = and(all, any); }
        check(all, "contraction decreased a distance");
    } }
}
pub fn c17(g: G, rounds: usize) {
    let mut p = build(&g);
    let mut ws = WitnessSearch::new(g.n);
    let mut gone = vec![];
    for _ in 0..rounds {
        let v = choose(g.n);
        if gone.contains(&v) { return; }
        contract_node(&mut p, &mut ws, v, sym(0, usize::MAX));
        gone.push(v);
        check_views(&p, g.n, &gone);
        check_preserved(&g, &arcs(&p, g.n), &gone);
    }
    let mut h = 0; for a in 0..g.n { for x in p.get_out_edges(a) { h = h * 7 + x.adj_node; } } observe(7, h);
    reach(0);
}
/// adding and reducing arcs keeps both views in step
pub fn c17_reduce(n: usize, k: usize) {
    let mut p = PreparationGraph::new(n);
    let mut h: Vec<E3> = vec![];
    for _ in 0..k {
        let (a, b) = (choose(n), choose(n));
        if a == b { return; }
        let w = sym(1, WMAX);
        p.add_or_reduce_edge(a, b, w, sym(0, 9));
        h.push((a, b, w));
        check_views(&p, n, &[]);
    }
    let r = G { n, e: h };
    for a in 0..n { for x in p.get_out_edges(a) { match r.edge(a, x.adj_node) { None => check(false, "an arc that was never added"), Some(w) => check(eq(w, x.weight), "not the smallest weight") } } }
    for &(a, b, _) in &r.e { check(p.get_out_edges(a).iter().any(|x| x.adj_node == b), "an arc is missing"); }
    reach(0);
}
pub fn c17_mid(n: usize, m: usize, k: usize, variants: usize) {
    let g = seeded(n, m, k, param() * 100 + choose(variants));
    let mut p = PreparationGraph::new(n);
    for &(a, b, w) in &g.e { p.add_edge(a, b, w); }
    let mut ws = WitnessSearch::new(n);
    let lim = [0, 1, 3, usize::MAX][choose(4)];
    let mut gone = vec![];
    let mut left: Vec<usize> = (0..n).collect();
    let mut r = Rng(param() as u64 + 3);
    for _ in 0..n / 2 {
        let v = left.remove(r.below(left.len()));
        contract_node(&mut p, &mut ws, v, lim);
        gone.push(v);
        check_views(&p, n, &gone);
    }
    let q = arcs(&p, n);
    let s = left[choose(left.len())];
    let (a, b) = (g.dists(s), q.dists(s));
    for &t in &left { match (a[t], b[t]) { (None, None) => {} (Some(x), Some(y)) => check(eq(x, y), "contraction changed a distance"), _ => check(false, "contraction changed whether a path exists") } }
    reach(0);
}
/// a sequence of requests from one start
pub fn c18(g: G, requests: usize, limited: bool) {
    let n = g.n;
    let p = build(&g);
    let mut ws = WitnessSearch::new(n);
    let start = choose(n);
    let avoid = match choose(n) { x if x == start => usize::MAX, x => x };
    ws.init(start, avoid);
    for _ in 0..requests {
        let t = choose(n);
        if t == avoid { return; }
        let lim = sym(0, usize::MAX);
        let settled = if limited { sym(0, usize::MAX) } else { usize::MAX };
        let r = ws.find_max_weight(&p, t, lim, settled);
        observe(8, r);
        check_bound(&g, start, avoid, t, lim, r, limited);
    }
    reach(0);
}
fn check_bound(g: &G, start: usize, avoid: usize, t: usize, lim: usize, r: usize, limited: bool) {
    let ps = g.paths_avoiding(start, t, avoid);
    let mut some = eq(r, usize::MAX);
    let mut within = false;
    for (_, x) in &ps { some = or(some, le(*x, r)); within = or(within, le(*x, lim)); }
    check(some, "a weight below the shortest path was reported");
    if !limited { check(or(!within, le(r, lim)), "an existing path within the limit was not found"); }
}
/// searches one after the other, from different starts
pub fn c18_init(g: G, limited: bool) {
    let n = g.n;
    let p = build(&g);
    let mut ws = WitnessSearch::new(n);
    if flip() { ws.fpv_age(choose(3)); }
    for _ in 0..2 {
        let start = choose(n);
        let avoid = match choose(n) { x if x == start => usize::MAX, x => x };
        ws.init(start, avoid);
        let t = choose(n);
        if t == avoid { return; }
        let lim = sym(0, usize::MAX);
        let settled = if limited { sym(0, usize::MAX) } else { usize::MAX };
        let r = ws.find_max_weight(&p, t, lim, settled);
        check_bound(&g, start, avoid, t, lim, r, limited);
    }
    reach(0);
}
pub fn c18_mid(n: usize, m: usize, k: usize, variants: usize) {
    let v = param() * 100 + choose(variants);
    let g = seeded(n, m, k, v);
    let mut p = PreparationGraph::new(n);
    for &(a, b, w) in &g.e { p.add_edge(a, b, w); }
    let mut ws = WitnessSearch::new(n);
    let start = choose(n);
    let avoid = (start + 1) % n;
    let h = G { n, e: g.e.iter().filter(|x| x.0 != avoid && x.1 != avoid).cloned().collect() };
    let d = h.dists(start);
    ws.init(start, avoid);
    let mut r = Rng(v as u64);
    for i in 0..4 {
        let t = r.below(n);
        if t == avoid { continue; }
        let lim = if i == 1 { sym(0, usize::MAX) } else { r.below(60) };
        let x = ws.find_max_weight(&p, t, lim, usize::MAX);
        match d[t] { None => check(x == usize::MAX, "a weight without a path"), Some(y) => { check(le(y, x), "a weight below the shortest path was reported"); check(or(lt(lim, y), le(x, lim)), "an existing path within the limit was not found"); } }
    }
    reach(0);
}
/// the reset markers: one step from any state in which all marks were set by earlier generations
pub fn c06_flags(n: usize, steps: usize) {
    let mut f = ValidFlags::new(n);
    let mut valid = vec![false; n];
    let mut aged = false;
    for _ in 0..steps {
        match choose(3) {
            0 => { let i = choose(n); f.set_valid(i); valid[i] = true; }
            1 => { f.invalidate_all(); valid = vec![false; n]; }
            _ => { if aged { return; } aged = true; f.invalidate_all(); f.fpv_age(choose(3)); valid = vec![false; n]; }
        }
        for i in 0..n { check(f.is_valid(i) == valid[i], "a mark survived the reset or was lost"); }
    }
    reach(0);
}
/// queries around the point where the reset markers run out
pub fn c06_age(g: G, after: usize) {
    let n = g.nodes();
    if n == 0 { return; }
    let f = prepare(&g.input());
    let mut c = create_calculator(&f);
    let p = c.calc_path(&f, choose(n), choose(n)); let _ = p;
    c.fpv_age(choose(3));
    for i in 0..after {
        let (s, t) = if i + 1 == after { (choose(n), choose(n)) } else { (i % n, (i + 1) % n) };
        let p = c.calc_path(&f, s, t);
        check_query(&g, s, t, &p);
    }
    reach(0);
}
/// contracting a node with many neighbours, then some of these
pub fn c17_hub(n: usize) {
    let mut r = Rng(param() as u64 + 16);
    let mut p = PreparationGraph::new(n);
    let mut e: Vec<E3> = vec![];
    for a in 1..n { e.push((0, a, 1 + r.below(60))); e.push((a, 0, 1 + r.below(60))); if a > 1 { e.push((a - 1, a, 10 + r.below(60))); } }
    e[n].2 = sym(1, WMAX);
    for &(a, b, w) in &e { p.add_edge(a, b, w); }
    let g = G { n, e };
    let mut ws = WitnessSearch::new(n);
    let lim = [0, 2, 10, usize::MAX][choose(4)];
    let mut gone = vec![];
    for v in [0, n - 1, 5] { contract_node(&mut p, &mut ws, v, lim); gone.push(v); check_views(&p, n, &gone); }
    let q = arcs(&p, n);
    for s in [1, n / 2] {
        let (a, b) = (g.dists(s), q.dists(s));
        for t in 0..n { if gone.contains(&t) { continue; } match (a[t], b[t]) { (None, None) => {} (Some(x), Some(y)) => check(eq(x, y), "contraction changed a distance"), _ => check(false, "contraction changed whether a path exists") } }
    }
    reach(0);
}
/// requests that settle many nodes: a grid
pub fn c18_grid(k: usize) {
    let mut r = Rng(param() as u64 * 10 + 17 + choose(6) as u64);
    let n = k * k;
    let mut e: Vec<E3> = vec![];
    for v in 0..n { for u in [(v % k + 1 < k).then(|| v + 1), (v + k < n).then(|| v + k)].into_iter().flatten() { e.push((v, u, 1 + r.below(20))); e.push((u, v, 1 + r.below(20))); } }
    let mut p = PreparationGraph::new(n);
    for &(a, b, w) in &e { p.add_edge(a, b, w); }
    let start = [0, n / 2 + 1][choose(2)];
    let avoid = n / 3;
    let d = G { n, e: e.into_iter().filter(|x| x.0 != avoid && x.1 != avoid).collect() }.dists(start);
    let mut ws = WitnessSearch::new(n);
    for round in 0..2 {
        ws.init(start, avoid);
        for i in 0..6 {
            let t = r.below(n);
            if t == avoid { continue; }
            let (lim, settled) = match (round, i) { (0, 2) => (sym(0, usize::MAX), usize::MAX), (1, 1) => (1000, sym(0, usize::MAX)), _ => (r.below(150), if i % 2 == 0 { usize::MAX } else { 1 + r.below(n) }) };
            let x = ws.find_max_weight(&p, t, lim, settled);
            let y = d[t].unwrap();
            observe(8, x);
            check(le(y, x), "a weight below the shortest path was reported");
            if settled == usize::MAX { check(or(lt(lim, y), le(x, lim)), "an existing path within the limit was not found"); }
        }
    }
    reach(0);
}
