//! Symbolic input graphs and the shortest-path oracle.
use crate::api::*;
use fast_paths::*;

pub type E3 = (usize, usize, usize);
/// weights stay below this unless a harness says otherwise: sums of up to 63 weights fit in 64 bits
pub const WMAX: usize = 1 << 58;

/// The reference graph: a plain list of directed edges (at most one per ordered pair).
#[derive(Clone)]
pub struct G { pub n: usize, pub e: Vec<E3> }

impl G {
    pub fn input(&self) -> InputGraph {
        let mut g = InputGraph::new();
        for &(a, b, w) in &self.e { g.add_edge(a, b, w); }
        g.freeze();
        g
    }
    pub fn nodes(&self) -> usize { let mut m = 0; for &(a, b, _) in &self.e { m = m.max(a + 1).max(b + 1); } m }
    /// all simple paths from s to t: (nodes, weight)
    pub fn paths(&self, s: usize, t: usize) -> Vec<(Vec<usize>, usize)> { self.paths_avoiding(s, t, usize::MAX) }
    pub fn paths_avoiding(&self, s: usize, t: usize, x: usize) -> Vec<(Vec<usize>, usize)> {
        let mut out = vec![];
        let mut cur = vec![s];
        self.rec(s, t, x, 0, &mut cur, &mut out);
        out
    }
    fn rec(&self, v: usize, t: usize, avoid: usize, w: usize, cur: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, usize)>) {
        if v == t { out.push((cur.clone(), w)); return; }
        for &(a, b, x) in &self.e {
            if a == v && b != avoid && !cur.contains(&b) { cur.push(b); self.rec(b, t, avoid, w + x, cur, out); cur.pop(); }
        }
    }
    pub fn edge(&self, a: usize, b: usize) -> Option<usize> {
        let mut r: Option<usize> = None;
        for &(x, y, w) in &self.e { if x == a && y == b { r = Some(match r { None => w, Some(o) => ite(le(o, w), o, w) }); } }
        r
    }
    pub fn reachable(&self, s: usize, t: usize) -> bool {
        let mut seen = vec![false; self.n.max(s + 1).max(t + 1)];
        seen[s] = true;
        let mut stack = vec![s];
        while let Some(v) = stack.pop() {
            if v == t { return true; }
            for &(a, b, _) in &self.e { if a == v && !seen[b] { seen[b] = true; stack.push(b); } }
        }
        false
    }
    /// w is the shortest distance from s to t: a lower bound of all simple paths, attained by one of them
    pub fn is_dist(&self, s: usize, t: usize, w: Option<usize>) -> bool {
        let ps = self.paths(s, t);
        match w {
            None => ps.is_empty(),
            Some(w) => {
                let mut all = true;
                let mut any = false;
                for (_, x) in &ps { all = and(all, le(w, *x)); any = or(any, eq(w, *x)); }
                and(all, any)
            }
        }
    }
    /// distances from s by Bellman-Ford with ordinary comparisons (which branch): for graphs with too many simple paths
    pub fn dists(&self, s: usize) -> Vec<Option<usize>> {
        let mut d: Vec<Option<usize>> = vec![None; self.n];
        d[s] = Some(0);
        loop {
            let mut changed = false;
            for &(a, b, w) in &self.e {
                if let Some(x) = d[a] {
                    let y = x + w;
                    let better = match d[b] { None => true, Some(o) => y < o };
                    if better { d[b] = Some(y); changed = true; }
                }
            }
            if !changed { return d; }
        }
    }
}
/// every subset of the ordered pairs of n nodes, every weight symbolic
pub fn all_graphs(n: usize) -> G { graphs_upto(n, n * n) }
/// every subset of at most k of the ordered pairs of n nodes; node ids are used up to n-1
pub fn graphs_upto(n: usize, k: usize) -> G { graphs_upto_w(n, k, 1, WMAX) }
pub fn graphs_upto_w(n: usize, k: usize, lo: usize, hi: usize) -> G {
    let mut e = vec![];
    for a in 0..n { for b in 0..n { if a != b && e.len() < k && flip() { e.push((a, b, sym(lo, hi))); } } }
    G { n, e }
}
/// fixed topology, symbolic weights
pub fn topo(n: usize, pairs: &[(usize, usize)]) -> G {
    G { n, e: pairs.iter().map(|&(a, b)| (a, b, sym(1, WMAX))).collect() }
}
/// fixed topology, same symbolic weight in both directions
pub fn bidir(n: usize, pairs: &[(usize, usize)]) -> G {
    let mut e = vec![];
    for &(a, b) in pairs { let w = sym(1, WMAX); e.push((a, b, w)); e.push((b, a, w)); }
    G { n, e }
}
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
}
/// a strongly connected graph picked by `seed` with n nodes and about m edges; k of the weights are symbolic, the rest small numbers
pub fn seeded(n: usize, m: usize, k: usize, seed: usize) -> G {
    let mut r = Rng(seed as u64 * 7919 + n as u64);
    let mut e: Vec<E3> = vec![];
    let mut perm: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() { let j = r.below(i + 1); perm.swap(i, j); }
    for i in 0..n { e.push((perm[i], perm[(i + 1) % n], 1 + r.below(20))); }
    let mut tries = 0;
    while e.len() < m && tries < 10 * m {
        tries += 1;
        let a = r.below(n);
        let b = r.below(n);
        if a != b && !e.iter().any(|x| x.0 == a && x.1 == b) { e.push((a, b, 1 + r.below(20))); }
    }
    let mut left = k;
    while left > 0 { let i = r.below(e.len()); if e[i].2 <= 20 { e[i].2 = usize::MAX; left -= 1; } }
    for x in &mut e { if x.2 == usize::MAX { x.2 = sym(1, WMAX); } }
    G { n, e }
}
/// n nodes of which few have edges: ids around the 16-bit limit
pub fn big(n: usize, k: usize) -> G {
    let mut e = vec![(0, 65535, 4), (65535, 65536, 3), (65536, 65537, 2), (65537, 3, 6), (3, 0, 1), (65534, 65536, 2), (65536, n - 1, 5), (n - 1, 65534, 7), (0, n - 1, 9), (65535, 3, 11)];
    for i in 0..k { e[(i * 3) % 10].2 = sym(1, WMAX); }
    G { n, e }
}
/// exactness of one query, in full (C01 and C02)
pub fn check_query(g: &G, s: usize, t: usize, p: &Option<ShortestPath>) {
    match p {
        None => { observe(1, usize::MAX); check(!g.reachable(s, t), "a path exists but none was found"); }
        Some(p) => {
            observe(1, p.get_weight());
            if s == t {
                check(p.get_weight() == 0, "weight for equal source and target is not 0");
                check(p.get_nodes().len() == 1 && p.get_nodes()[0] == s, "nodes for equal source and target");
                check(p.get_source() == s && p.get_target() == s && p.is_found(), "end points for equal source and target");
                return;
            }
            check(g.reachable(s, t), "a path was found but none exists");
            check(g.is_dist(s, t, Some(p.get_weight())), "reported weight is not the shortest distance");
            check_nodes(g, s, t, p, p.get_weight());
        }
    }
}
/// the same with distances computed beforehand (G::dists)
pub fn check_query_d(g: &G, d: &[Option<usize>], s: usize, t: usize, p: &Option<ShortestPath>) {
    match p {
        None => { observe(1, usize::MAX); check(d[t].is_none(), "a path exists but none was found"); }
        Some(p) => {
            observe(1, p.get_weight());
            match d[t] { None => check(false, "a path was found but none exists"), Some(w) => check(eq(w, p.get_weight()), "reported weight is not the shortest distance") }
            check_nodes(g, s, t, p, p.get_weight());
        }
    }
}
/// the reported nodes form a simple path of the input graph whose cheapest edges add up to `inner`
pub fn check_nodes(g: &G, s: usize, t: usize, p: &ShortestPath, inner: usize) {
    let v = p.get_nodes();
    check(p.is_found(), "path not marked as found");
    check(p.get_source() == s && p.get_target() == t, "wrong end points");
    check(!v.is_empty() && v[0] == s && v[v.len() - 1] == t, "node list does not join the end points");
    if v.is_empty() { return; }
    let mut sum = 0;
    for i in 0..v.len() {
        observe(2, v[i]);
        for j in 0..i { check(v[i] != v[j], "node visited twice"); }
        if i > 0 {
            match g.edge(v[i - 1], v[i]) {
                None => { check(false, "consecutive nodes are not joined by an edge"); return; }
                Some(w) => sum += w,
            }
        }
    }
    check(eq(sum, inner), "edge weights do not add up to the reported weight");
}
/// picks one query of the graph and checks it
pub fn any_query(g: &G, f: &FastGraph) {
    let n = g.nodes();
    if n == 0 { return; }
    let s = choose(n);
    let t = choose(n);
    let p = calc_path(f, s, t);
    check_query(g, s, t, &p);
}
/// all queries of the graph, weights only
pub fn all_queries(g: &G, f: &FastGraph) {
    let n = g.nodes();
    if n == 0 { return; }
    let mut c = create_calculator(f);
    for s in 0..n { for t in 0..n { let p = c.calc_path(f, s, t); check_query(g, s, t, &p); } }
}
pub const CYCLE5: &[(usize, usize)] = &[(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)];
pub const CHAIN6: &[(usize, usize)] = &[(3, 0), (0, 4), (4, 1), (1, 5), (5, 2)];
pub const K4: &[(usize, usize)] = &[(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
pub const STAR5: &[(usize, usize)] = &[(2, 0), (2, 1), (2, 3), (2, 4)];
pub const GRID6: &[(usize, usize)] = &[(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5)];
pub const WHEEL5: &[(usize, usize)] = &[(0, 1), (1, 2), (2, 3), (3, 0), (4, 0), (4, 2)];
pub const DIAMONDS7: &[(usize, usize)] = &[(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (3, 5), (4, 6), (5, 6), (6, 0)];
