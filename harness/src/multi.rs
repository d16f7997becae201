//! C03: weighted sources and targets.
use crate::api::*;
use crate::graphs::*;
use fast_paths::*;

pub const MAX: usize = usize::MAX;
/// an initial weight: any number, or the maximum weight (an ignored option)
pub fn init_weight() -> usize { if choose(3) == 2 { MAX } else { sym(0, WMAX) } }
/// an initial weight that is symbolic across both cases
pub fn init_weight_sym() -> usize { let w = sym(0, MAX); assume(or(le(w, WMAX), eq(w, MAX))); w }
pub fn options(n: usize, len: usize, symbolic: bool) -> Vec<(usize, usize)> {
    (0..len).map(|_| (choose(n), if symbolic { init_weight_sym() } else { init_weight() })).collect()
}
/// lower bound and attainment over all combinations
pub fn check_multi(g: &G, ss: &[(usize, usize)], ts: &[(usize, usize)], p: &Option<ShortestPath>) {
    let mut exists = false;
    for &(s, ws) in ss { for &(t, wt) in ts {
        if ws == MAX || wt == MAX { continue; }
        let ps = g.paths(s, t);
        exists |= !ps.is_empty();
        if let Some(p) = p {
            let mut all = true;
            for (_, x) in &ps { all = and(all, le(p.get_weight(), ws + *x + wt)); }
            check(all, "a cheaper combination exists");
        }
    } }
    match p {
        None => { observe(1, MAX); check(!exists, "a combination is connected but no path was found"); }
        Some(p) => {
            observe(1, p.get_weight());
            check(exists, "a path was found but no combination is connected");
            let (s, t) = (p.get_source(), p.get_target());
            let v = p.get_nodes();
            if v.is_empty() { check(false, "no nodes"); return; }
            let mut inner = 0;
            for i in 1..v.len() { match g.edge(v[i - 1], v[i]) { None => { check(false, "consecutive nodes are not joined by an edge"); return; } Some(w) => inner += w } }
            check_nodes(g, s, t, p, inner);
            let mut any = false;
            for &(a, wa) in ss { for &(b, wb) in ts {
                if a == s && b == t && wa != MAX && wb != MAX { any = or(any, eq(p.get_weight(), wa + inner + wb)); }
            } }
            check(any, "the reported path does not belong to a combination with the reported weight");
        }
    }
}
pub fn c03(g: G, ls: usize, lt: usize, symbolic: bool) {
    let n = g.nodes();
    if n == 0 { return; }
    let f = prepare(&g.input());
    let ss = options(n, ls, symbolic);
    let ts = options(n, lt, symbolic);
    let p = if flip() { calc_path_multiple_sources_and_targets(&f, ss.clone(), ts.clone()) } else { create_calculator(&f).calc_path_multiple_sources_and_targets(&f, ss.clone(), ts.clone()) };
    check_multi(&g, &ss, &ts, &p);
    if p.is_some() { reach(1); } else { reach(2); }
    reach(0);
}
/// initial weights up to the limit: one of them may be as large as keeps every sum that occurs below the maximum weight
pub fn c03_heavy(n: usize, order: bool) {
    let mut g = G { n, e: vec![] };
    for a in 0..n { for b in a + 1..n { if b == a + 1 || flip() { g.e.push((a, b, sym(1, 1000))); } } }
    let f = if order { let o = crate::core::permutation(n); prepare_with_order(&g.input(), &o).unwrap() } else { prepare(&g.input()) };
    let (s, t) = (choose(n), choose(n));
    let (heavy, light) = (sym(0, MAX - 1), sym(0, 1000));
    let room = |x: usize| assume(le(x, MAX - 1 - heavy));
    room(light);
    for a in 0..n { for (x, y) in [(s, a), (a, t)] { for (_, w) in g.paths(x, y) { room(w); } } }
    for (_, w) in g.paths(s, t) { room(w + light); }
    let fwd = flip();
    let (ss, ts) = if fwd { (vec![(s, heavy)], vec![(t, light)]) } else { (vec![(s, light)], vec![(t, heavy)]) };
    let p = create_calculator(&f).calc_path_multiple_sources_and_targets(&f, ss.clone(), ts.clone());
    check_multi(&g, &ss, &ts, &p);
    if p.is_some() { reach(1); } else { reach(2); }
    reach(0);
}
/// other ways of preparing
pub fn c03_order(g: G, ls: usize, lt: usize) {
    let n = g.nodes();
    if n == 0 { return; }
    let f = crate::core::any_prepare(&g.input());
    let ss = options(n, ls, false);
    let ts = options(n, lt, false);
    let p = create_calculator(&f).calc_path_multiple_sources_and_targets(&f, ss.clone(), ts.clone());
    check_multi(&g, &ss, &ts, &p);
    reach(0);
}
/// larger graphs with concrete weights: the initial weights are what is symbolic
pub fn c03_mid(n: usize, m: usize, k: usize, ls: usize, lt: usize, variants: usize) {
    let v = param() * 100 + choose(variants);
    let g = seeded(n, m, k, v);
    let mut r = Rng(v as u64 + 5);
    let f = prepare(&g.input());
    let mut pick = |l: usize| -> Vec<(usize, usize)> { (0..l).map(|i| (if i == 2 { r.below(3) } else { r.below(n) }, sym(0, WMAX))).collect() };
    let ss = pick(ls);
    let ts = pick(lt);
    let p = create_calculator(&f).calc_path_multiple_sources_and_targets(&f, ss.clone(), ts.clone());
    let p = match p { Some(p) => p, None => { check(false, "a combination is connected but no path was found"); return; } };
    observe(1, p.get_weight());
    let mut any = false;
    for &(s, ws) in &ss {
        let d = g.dists(s);
        for &(t, wt) in &ts {
            let x = ws + d[t].unwrap() + wt;
            check(le(p.get_weight(), x), "a cheaper combination exists");
            if p.get_source() == s && p.get_target() == t { any = or(any, eq(x, p.get_weight())); }
        }
    }
    check(any, "the reported end points do not belong to a combination with the reported weight");
    let v = p.get_nodes();
    let mut inner = 0;
    for i in 1..v.len() { match g.edge(v[i - 1], v[i]) { None => { check(false, "consecutive nodes are not joined by an edge"); return; } Some(w) => inner += w } }
    check_nodes(&g, p.get_source(), p.get_target(), &p, inner);
    reach(0);
}

/// long lists with repeated nodes: k of the initial weights are symbolic
pub fn c03_long(n: usize, m: usize, len: usize, k: usize) {
    let g = seeded(n, m, 0, param());
    let f = prepare(&g.input());
    let mut r = Rng(param() as u64 + 11);
    // every node occurs several times; the k symbolic entries stand first, in the middle or last among the entries of one node
    let pos = choose(3);
    let mut list = |l: usize| -> Vec<(usize, usize)> {
        let mut v: Vec<(usize, usize)> = (0..l).map(|_| (r.below(n), if r.below(9) == 0 { MAX } else { 40 + r.below(30) })).collect();
        let x = v[0].0;
        for j in [0, l / 2, l - 1] { v[j] = (x, 45); }
        for i in 0..k { let j = match (pos + i) % 3 { 0 => 0, 1 => l / 2, _ => l - 1 }; v[j].1 = sym(0, WMAX); }
        v
    };
    let (a, b) = match choose(3) { 0 => (len, 1), 1 => (1, len), _ => (len, 4) };
    let ss = list(a);
    let ts = list(b);
    let p = create_calculator(&f).calc_path_multiple_sources_and_targets(&f, ss.clone(), ts.clone());
    let mut exists = false;
    let mut all = true;
    let mut any = false;
    for &(s, ws) in &ss {
        if ws == MAX { continue; }
        let d = g.dists(s);
        for &(t, wt) in &ts {
            if wt == MAX { continue; }
            exists = true;
            if let Some(p) = &p { let x = ws + d[t].unwrap() + wt; all = and(all, le(p.get_weight(), x)); if p.get_source() == s && p.get_target() == t { any = or(any, eq(x, p.get_weight())); } }
        }
    }
    check(p.is_some() == exists, "found / not found");
    if let Some(p) = &p {
        observe(1, p.get_weight());
        check(all, "a cheaper combination exists");
        check(any, "the reported end points do not belong to a combination with the reported weight");
        let v = p.get_nodes();
        let mut inner = 0;
        for i in 1..v.len() { match g.edge(v[i - 1], v[i]) { None => { check(false, "consecutive nodes are not joined by an edge"); return; } Some(w) => inner += w } }
        check_nodes(&g, p.get_source(), p.get_target(), p, inner);
    }
    reach(0);
}
