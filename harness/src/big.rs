//! Sizes: larger graphs with concrete weights and one symbolic weight. The oracle computes the concrete part with Dijkstra's
//! algorithm and keeps the symbolic edge in a formula, so that it does not split paths.
use crate::api::*;
use crate::graphs::*;
use fast_paths::*;
use std::cmp::Reverse;
use std::collections::BinaryHeap;

const NONE: usize = usize::MAX;
pub struct Big { pub n: usize, pub adj: Vec<Vec<(usize, usize)>>, pub rev: Vec<Vec<(usize, usize)>>, pub sym: Option<(usize, usize, usize)> }
impl Big {
    /// the edges of `e`; the one at index `k` gets a symbolic weight in lo..=hi
    pub fn new(n: usize, e: &[(usize, usize, usize)], k: usize, lo: usize, hi: usize) -> (Big, InputGraph) {
        let mut b = Big { n, adj: vec![vec![]; n], rev: vec![vec![]; n], sym: None };
        let mut g = InputGraph::new();
        for (i, &(u, v, w)) in e.iter().enumerate() {
            let w = if i == k { let x = sym(lo, hi); b.sym = Some((u, v, x)); x } else { b.adj[u].push((v, w)); b.rev[v].push((u, w)); w };
            g.add_edge(u, v, w);
        }
        g.freeze();
        (b, g)
    }
    fn dijkstra(adj: &[Vec<(usize, usize)>], s: usize) -> Vec<usize> {
        let mut d = vec![NONE; adj.len()];
        let mut h = BinaryHeap::new();
        d[s] = 0;
        h.push((Reverse(0), s));
        while let Some((Reverse(w), v)) = h.pop() {
            if w > d[v] { continue; }
            for &(u, x) in &adj[v] { if w + x < d[u] { d[u] = w + x; h.push((Reverse(w + x), u)); } }
        }
        d
    }
    /// weights from s to each of ts
    pub fn dists(&self, s: usize, ts: &[usize]) -> Vec<Option<usize>> {
        let d = Big::dijkstra(&self.adj, s);
        let via = match self.sym { Some((_, b, _)) => Big::dijkstra(&self.adj, b), None => vec![] };
        ts.iter().map(|&t| match self.sym {
            Some((a, _, w)) if d[a] != NONE && via[t] != NONE => { let x = d[a] + w + via[t]; Some(if d[t] == NONE { x } else { ite(le(d[t], x), d[t], x) }) }
            _ => if d[t] == NONE { None } else { Some(d[t]) },
        }).collect()
    }
    pub fn weight(&self, u: usize, v: usize) -> Option<usize> {
        let c = self.adj[u].iter().filter(|x| x.0 == v).map(|x| x.1).min();
        match (self.sym, c) { (Some((a, b, w)), c) if a == u && b == v => Some(match c { None => w, Some(x) => ite(le(x, w), x, w) }), (_, c) => c }
    }
    /// exactness of a query, in full
    pub fn check(&self, s: usize, t: usize, d: Option<usize>, p: &Option<ShortestPath>) {
        let p = match (p, d) {
            (None, d) => { observe(1, NONE); check(d.is_none(), "a path exists but none was found"); return; }
            (Some(_), None) => { check(false, "a path was found but none exists"); return; }
            (Some(p), Some(d)) => { observe(1, p.get_weight()); check(eq(d, p.get_weight()), "reported weight is not the shortest distance"); p }
        };
        let v = p.get_nodes();
        observe(2, v.len());
        check(p.is_found() && p.get_source() == s && p.get_target() == t, "wrong end points");
        check(!v.is_empty() && v[0] == s && v[v.len() - 1] == t, "node list does not join the end points");
        let mut seen = vec![false; self.n];
        let mut sum = 0;
        for i in 0..v.len() {
            check(!seen[v[i]], "node visited twice");
            seen[v[i]] = true;
            if i > 0 { match self.weight(v[i - 1], v[i]) { None => { check(false, "consecutive nodes are not joined by an edge"); return; } Some(w) => sum += w } }
        }
        check(eq(sum, p.get_weight()), "edge weights do not add up to the reported weight");
    }
    pub fn check_from(&self, f: &FastGraph, c: &mut PathCalculator, s: usize, ts: &[usize]) {
        let d = self.dists(s, ts);
        for (i, &t) in ts.iter().enumerate() { let p = c.calc_path(f, s, t); self.check(s, t, d[i], &p); }
    }
}
/// a prepared graph: default, in order of ids, or in the order of another prepared graph
pub fn prep(g: &InputGraph, mode: usize) -> FastGraph {
    let n = g.get_num_nodes();
    match mode {
        0 => prepare(g),
        1 => { let o: Vec<usize> = (0..n).collect(); prepare_with_order(g, &o).unwrap() }
        2 => { let o: Vec<usize> = (0..n).rev().collect(); prepare_with_order_with_params(g, &o, &ParamsWithOrder::new(5)).unwrap() }
        3 => { let o = get_node_ordering(&prepare(g)); prepare_with_order(g, &o).unwrap() }
        // the inner nodes first: shortcuts nested as deeply as the chain is long
        5 => { let o: Vec<usize> = (1..n - 1).chain([0, n - 1]).collect(); prepare_with_order(g, &o).unwrap() }
        6 => { let o: Vec<usize> = (1..n - 1).rev().chain([n - 1, 0]).collect(); prepare_with_order_with_params(g, &o, &ParamsWithOrder::new(3)).unwrap() }
        7 => { let o: Vec<usize> = (1..n - 1).chain([n - 1, 0]).collect(); prepare_with_order(g, &o).unwrap() }
        8 => { let o: Vec<usize> = (1..n - 1).rev().chain([0, n - 1]).collect(); prepare_with_order(g, &o).unwrap() }
        // a negative factor makes the hierarchy as deep as possible
        _ => prepare_with_params(g, &Params::new(-1.0, 10, 10, 10)),
    }
}
/// a chain of n nodes in both directions: shortcuts nested as deeply as the mode makes them
pub fn chain(n: usize, modes: &[usize], lo: usize) {
    let mut r = Rng(param() as u64 + 1);
    let mut e = vec![];
    for i in 0..n - 1 { let w = 1 + r.below(9); e.push((i, i + 1, w)); e.push((i + 1, i, w + 1)); }
    let (b, g) = Big::new(n, &e, e.len() / 2 + 1, lo, WMAX);
    let f = prep(&g, modes[choose(modes.len())]);
    let mut c = create_calculator(&f);
    for (s, ts) in [(0, vec![n - 1, n / 2, n - 2, 0]), (n - 1, vec![0, 1, n / 3]), (n / 2 - 3, vec![n - 1, 0])] { b.check_from(&f, &mut c, s, &ts); }
    reach(0);
}
/// a grid of w x h nodes with one diagonal whose weight is symbolic
pub fn grid(w: usize, h: usize, modes: &[usize], lo: usize, hi: usize) {
    let mut r = Rng(param() as u64 + 2);
    let n = w * h;
    let mut e = vec![(w + 1, n - w - 2, 0)];
    for y in 0..h { for x in 0..w {
        let v = y * w + x;
        if x + 1 < w { e.push((v, v + 1, 1 + r.below(20))); e.push((v + 1, v, 1 + r.below(20))); }
        if y + 1 < h { e.push((v, v + w, 1 + r.below(20))); e.push((v + w, v, 1 + r.below(20))); }
    } }
    let (b, g) = Big::new(n, &e, 0, lo, hi);
    let f = prep(&g, modes[choose(modes.len())]);
    let mut c = create_calculator(&f);
    let ts: Vec<usize> = (0..6).map(|_| r.below(n)).chain([0, n - 1]).collect();
    for s in [0, n - 1, r.below(n), r.below(n)] { b.check_from(&f, &mut c, s, &ts); }
    reach(0);
}
/// n/2 separate pairs of nodes: more than 65536 arcs
pub fn pairs(n: usize) {
    let mut e = vec![];
    for i in 0..n / 2 { e.push((2 * i, 2 * i + 1, 1 + i % 7)); e.push((2 * i + 1, 2 * i, 2 + i % 5)); }
    let (b, g) = Big::new(n, &e, e.len() - 2, 1, WMAX);
    let f = prep(&g, choose(2));
    check(f.get_num_out_edges() == n / 2 && f.get_num_in_edges() == n / 2, "number of arcs");
    let mut c = create_calculator(&f);
    b.check_from(&f, &mut c, n - 2, &[n - 1, n - 2, 0, n - 3]);
    b.check_from(&f, &mut c, n - 1, &[n - 2, 1]);
    b.check_from(&f, &mut c, 1, &[0, 2]);
    b.check_from(&f, &mut c, 65536, &[65537, 65535, 0, 1]);
    reach(0);
}
/// a complete directed graph
pub fn complete(n: usize, modes: &[usize]) {
    let mut r = Rng(param() as u64 + 4);
    let mut e = vec![];
    for a in 0..n { for b in 0..n { if a != b { e.push((a, b, 1 + r.below(60))); } } }
    let (b, g) = Big::new(n, &e, 5, 1, WMAX);
    let f = prep(&g, modes[choose(modes.len())]);
    let mut c = create_calculator(&f);
    let ts: Vec<usize> = (0..n).collect();
    for s in [0, n / 2, n - 1] { b.check_from(&f, &mut c, s, &ts); }
    reach(0);
}
/// a hub with n - 1 neighbours
pub fn hub(n: usize, modes: &[usize], lo: usize) {
    let mut r = Rng(param() as u64 + 5);
    let h = n / 3;
    let mut e = vec![];
    for a in 0..n { if a != h { e.push((a, h, 1 + r.below(60))); e.push((h, a, 1 + r.below(60))); } }
    let (b, g) = Big::new(n, &e, 5, lo, WMAX);
    let f = prep(&g, modes[choose(modes.len())]);
    let mut c = create_calculator(&f);
    let ts: Vec<usize> = (0..n).step_by(7).collect();
    for s in [0, 2, h, n - 1] { b.check_from(&f, &mut c, s, &ts); }
    reach(0);
}
/// A chain whose shortcuts are nested as deeply as the mode makes them. Natively it is 20 times as long.
pub fn nested(n: usize, modes: &[usize]) {
    let n = n * reps();
    let mut r = Rng(param() as u64 + 6);
    let x = sym(1 << 30, WMAX);
    let k = n / 3;
    let e: Vec<(usize, usize)> = (0..n - 1).map(|i| if i == k { (x, x) } else { let w = 1 + r.below(9); (w, w + 1) }).collect();
    let (up, down) = (e.iter().map(|x| x.0).sum::<usize>(), e.iter().map(|x| x.1).sum::<usize>());
    let m = modes[choose(modes.len())];
    let ps = shallow(200, || {
        let mut g = InputGraph::new();
        for i in 0..n - 1 { g.add_edge(i, i + 1, e[i].0); g.add_edge(i + 1, i, e[i].1); }
        g.freeze();
        g.thaw();
        g.freeze();
        let f = prep(&g, m);
        let mut c = create_calculator(&f);
        [c.calc_path(&f, 0, n - 1), c.calc_path(&f, n - 1, 0), c.calc_path(&f, n / 2, 1)]
    });
    for (i, (p, d)) in ps.iter().zip([up, down, e[1..n / 2].iter().map(|x| x.1).sum()]).enumerate() {
        let p = match p { None => { check(false, "no path"); return; } Some(p) => p };
        let v = p.get_nodes();
        check(eq(p.get_weight(), d), "weight");
        check(v.len() == [n, n, n / 2][i], "number of nodes");
        check((1..v.len()).all(|j| if i == 0 { v[j] == v[j - 1] + 1 } else { v[j] + 1 == v[j - 1] }), "nodes");
    }
    reach(0);
}
/// `n` sources and targets, a hub and rings: nothing nests
pub fn flat(n: usize, modes: &[usize]) {
    let n = n * reps();
    let x = sym(1, WMAX);
    let m = modes[choose(modes.len())];
    let p = shallow(200, || {
        let mut g = InputGraph::new();
        for i in 1..n { g.add_edge(i, (i + 1) % n, 2); if i % 2 == 0 { g.add_edge_bidir(i, i - 1, 3); } }
        g.add_edge(0, 1, x);
        g.freeze();
        let f = prep(&g, m);
        let mut c = create_calculator(&f);
        c.calc_path_multiple_sources_and_targets(&f, (0..n).map(|i| (i, n - i)).collect(), (0..n).map(|i| (i, i + 1)).collect())
    });
    check(p.map_or(false, |p| p.get_weight() <= n + 1), "weight");
    reach(0);
}
/// a grid prepared with one symbolic limit
pub fn limits(k: usize) {
    let mut r = Rng(param() as u64 + 12);
    let n = k * k;
    let mut e = vec![(k + 1, n - 2, 0)];
    for v in 0..n { for u in [(v % k + 1 < k).then(|| v + 1), (v + k < n).then(|| v + k)].into_iter().flatten() { e.push((v, u, 1 + r.below(20))); e.push((u, v, 1 + r.below(20))); } }
    let (b, g) = Big::new(n, &e, 0, 1000000, WMAX);
    let l = sym(0, usize::MAX);
    observe(3, l);
    let mut p = Params::new(0.1, 5, 5, 5);
    let f = match choose(4) {
        0 => { p.max_settled_nodes_initial_relevance = l; prepare_with_params(&g, &p) }
        1 => { p.max_settled_nodes_neighbor_relevance = l; prepare_with_params(&g, &p) }
        2 => { p.max_settled_nodes_contraction = l; prepare_with_params(&g, &p) }
        _ => { let o = get_node_ordering(&prepare(&g)); prepare_with_order_with_params(&g, &o, &ParamsWithOrder::new(l)).unwrap() }
    };
    let mut c = create_calculator(&f);
    b.check_from(&f, &mut c, 0, &[n - 1, n / 2, k - 1]);
    b.check_from(&f, &mut c, n - 2, &[0, k + 1, n - 1]);
    reach(0);
}
/// lists of more entries than 16 bits count, on a ring
pub fn lists(len: usize) {
    let n = 50;
    let e: Vec<_> = (0..n).map(|i| (i, (i + 1) % n, 3)).collect();
    let (b, g) = Big::new(n, &e, 7, 1, 1000);
    let f = prepare(&g);
    let mut c = create_calculator(&f);
    let last = choose(2);
    // only the last entries are cheap
    let list = |x: usize| -> Vec<(usize, usize)> { (0..len).map(|i| (i % 40, if i + 1 == len { x } else { 100000 + i })).collect() };
    let (ss, ts) = if last == 0 { (list(5), vec![(45, 1)]) } else { (vec![(45, 1)], list(5)) };
    let p = c.calc_path_multiple_sources_and_targets(&f, ss, ts);
    let z = (len - 1) % 40;
    let (s, t) = if last == 0 { (z, 45) } else { (45, z) };
    let d = b.dists(s, &[t])[0].unwrap();
    match &p { None => check(false, "no path"), Some(p) => { observe(1, p.get_weight()); check(eq(p.get_weight(), d + 6), "not the best combination"); check(p.get_source() == s && p.get_target() == t, "end points"); } }
    reach(0);
}
