//! C06: one calculator for many queries; C19: several calculators side by side, in turns and in threads.
use crate::api::*;
use crate::graphs::*;
use crate::multi::*;
use fast_paths::*;

pub fn same(a: &Option<ShortestPath>, b: &Option<ShortestPath>) {
    match (a, b) {
        (None, None) => {}
        (Some(a), Some(b)) => { check(eq(a.get_weight(), b.get_weight()), "weight differs from a new calculator's");
            check(a.get_source() == b.get_source() && a.get_target() == b.get_target(), "end points differ from a new calculator's");
            check(a.get_nodes() == b.get_nodes(), "nodes differ from a new calculator's"); }
        _ => check(false, "found / not found differs from a new calculator"),
    }
}
/// `len` queries in a row, the last one checked against a new calculator and the oracle
pub fn c06(g: G, len: usize) {
    let n = g.nodes();
    if n == 0 { return; }
    let f = prepare(&g.input());
    let mut c = create_calculator(&f);
    for _ in 1..len { let (s, t) = (choose(n), choose(n)); let p = c.calc_path(&f, s, t); if p.is_some() { reach(1); } else { reach(2); } }
    let (s, t) = (choose(n), choose(n));
    let p = c.calc_path(&f, s, t);
    same(&p, &calc_path(&f, s, t));
    check_query(&g, s, t, &p);
    reach(0);
}
/// a multi-source query between / before
pub fn c06_multi(g: G, first: bool) {
    let n = g.nodes();
    if n == 0 { return; }
    let f = prepare(&g.input());
    let mut c = create_calculator(&f);
    let ss: Vec<(usize, usize)> = (0..2).map(|_| (choose(n), sym(0, WMAX))).collect();
    let ts = vec![(choose(n), sym(0, WMAX))];
    if first {
        let _ = c.calc_path_multiple_sources_and_targets(&f, ss, ts);
        let (s, t) = (choose(n), choose(n));
        let p = c.calc_path(&f, s, t);
        same(&p, &calc_path(&f, s, t));
        check_query(&g, s, t, &p);
    } else {
        let _ = c.calc_path(&f, choose(n), choose(n));
        let p = c.calc_path_multiple_sources_and_targets(&f, ss.clone(), ts.clone());
        same(&p, &calc_path_multiple_sources_and_targets(&f, ss.clone(), ts.clone()));
        check_multi(&g, &ss, &ts, &p);
    }
    reach(0);
}
/// the second query goes to another graph with the same number of nodes
pub fn c06_switch(g: G, h: G) {
    let n = g.nodes();
    if n == 0 || h.nodes() != n { return; }
    let f = prepare(&g.input());
    let f2 = prepare(&h.input());
    let mut c = create_calculator(&f);
    let _ = c.calc_path(&f, choose(n), choose(n));
    let (s, t) = (choose(n), choose(n));
    let p = c.calc_path(&f2, s, t);
    same(&p, &calc_path(&f2, s, t));
    check_query(&h, s, t, &p);
    let p = c.calc_path(&f, t, s);
    check_query(&g, t, s, &p);
    reach(0);
}
/// many queries: a cheap way to node 2 is touched once at the beginning and never again; stale data would make a later query wrong
pub fn c06_many(count: usize) {
    // 0 -1-> 2 -1-> 3, 1 -w-> 3 ; queries 1 -> 3 must not profit from what the query 0 -> 3 left behind
    let w = sym(10, WMAX);
    let g = G { n: 4, e: vec![(0, 2, 1), (2, 3, 1), (1, 2, w), (1, 3, w + 5)] };
    let f = prepare(&g.input());
    let mut c = create_calculator(&f);
    let p = c.calc_path(&f, 0, 3);
    check_query(&g, 0, 3, &p);
    for _ in 0..count {
        let p = c.calc_path(&f, 1, 3);
        match &p { Some(p) => check(eq(p.get_weight(), w + 1), "weight after many queries"), None => check(false, "not found after many queries") }
    }
    let p = c.calc_path(&f, 1, 3);
    check_query(&g, 1, 3, &p);
    let p = c.calc_path(&f, 3, 1);
    check(p.is_none(), "found after many queries");
    reach(0);
}
/// refused queries in between leave nothing behind
pub fn c06_refused(g: G, kinds: usize) {
    let n = g.nodes();
    if n == 0 { return; }
    let f = prepare(&g.input());
    let mut c = create_calculator(&f);
    if flip() { let (s, t) = (choose(n), choose(n)); c.calc_path(&f, s, t); }
    let x = choose(n);
    let w = sym(0, WMAX);
    refused("invalid query answered", || match choose(kinds) {
        0 => c.calc_path(&f, x, n),
        1 => c.calc_path(&f, n, x),
        2 => c.calc_path_multiple_sources_and_targets(&f, vec![(x, w), (n, 0)], vec![(x, 0)]),
        3 => c.calc_path_multiple_sources_and_targets(&f, vec![(x, 0)], vec![(x, w), (n, 0)]),
        4 => c.calc_path_multiple_sources_and_targets(&f, vec![(x, w)], vec![]),
        _ => c.calc_path_multiple_sources_and_targets(&f, vec![], vec![(x, w)]),
    });
    reach(0);
    let (s, t) = (choose(n), choose(n));
    match attempt(|| c.calc_path(&f, s, t)) { Some(p) => { same(&p, &calc_path(&f, s, t)); check_query(&g, s, t, &p); } None => check(false, "valid query refused") }
}
/// many calculators one after the other, then one more
pub fn c06_fresh(count: usize) {
    let w = sym(10, WMAX);
    let g = G { n: 4, e: vec![(0, 2, 1), (2, 3, 1), (1, 2, w), (1, 3, w + 5)] };
    let f = prepare(&g.input());
    for _ in 0..12 { check(calc_path(&f, 0, 3).map(|p| p.get_weight()) == Some(2), "weight of a new calculator"); calc_path(&f, 0, 0); }
    for i in 0..count {
        let (s, t) = if i < count / 2 { (1, 2) } else { (3, 0) };
        let p = calc_path(&f, s, t);
        match &p { Some(p) => check(i < count / 2 && eq(p.get_weight(), w), "weight of a new calculator"), None => check(i >= count / 2, "not found by a new calculator") }
    }
    reach(0);
}
/// larger graphs: every ordered pair of queries from a seeded list
pub fn c06_mid(n: usize, m: usize, k: usize, variants: usize) {
    let v = param() * 100 + choose(variants);
    let mut g = seeded(n, m, k, v);
    // cut the graph: some queries find nothing
    let cut = n / 2;
    g.e.retain(|x| !(x.0 < cut && x.1 >= cut));
    if g.nodes() != n { return; }
    let f = prepare(&g.input());
    let mut c = create_calculator(&f);
    let mut r = Rng(v as u64 + 17);
    for _ in 0..12 {
        let (s, t) = (r.below(n), r.below(n));
        let p = c.calc_path(&f, s, t);
        let d = g.dists(s);
        check_query_d(&g, &d, s, t, &p);
    }
    reach(0);
}
/// C19: calculators used in turns on one shared graph
pub fn c19(g: G, rounds: usize) {
    let n = g.nodes();
    if n == 0 { return; }
    let f = prepare(&g.input());
    let shared = &f;
    let mut a = create_calculator(shared);
    let mut b = create_calculator(shared);
    for _ in 0..rounds {
        let (s, t) = (choose(n), choose(n));
        let (x, y) = (choose(n), choose(n));
        let p = a.calc_path(shared, s, t);
        let q = b.calc_path(shared, x, y);
        check_query(&g, s, t, &p);
        check_query(&g, x, y, &q);
    }
    reach(0);
}

/// whether threads may share (Sync) or take over (Send) a value, decided by the compiler from the fields
mod auto {
    pub struct W<T>(pub std::marker::PhantomData<T>);
    pub trait No { const SYNC: bool = false; const SEND: bool = false; }
    impl<T> No for W<T> {}
    pub struct S<T>(pub std::marker::PhantomData<T>);
    impl<T> No for S<T> {}
    impl<T: Sync> W<T> { pub const SYNC: bool = true; }
    impl<T: Send> S<T> { pub const SEND: bool = true; }
}
pub fn c19_types_() {
    use auto::{No, S, W};
    check(<W<FastGraph>>::SYNC, "a prepared graph can not be shared between threads");
    check(<S<FastGraph>>::SEND, "a prepared graph can not be handed to a thread");
    check(<S<PathCalculator>>::SEND, "a calculator can not be handed to a thread");
    check(<W<InputGraph>>::SYNC && <S<InputGraph>>::SEND, "an input graph can not be shared");
    check(<S<ShortestPath>>::SEND, "a result can not be handed to a thread");
    check(<W<FastGraph32>>::SYNC && <S<FastGraph32>>::SEND, "a small graph can not be shared");
    reach(0);
}
type Q = (usize, usize);
type R = Option<ShortestPath>;
/// two threads, each with a calculator of its own, `len` queries each
pub fn c19_par(g: G, len: usize, made_inside: bool) {
    let n = g.nodes();
    if n == 0 { return; }
    let f = prepare(&g.input());
    let shared = &f;
    let qs = |_| -> Vec<Q> { (0..len).map(|_| (choose(n), choose(n))).collect() };
    let (qa, qb) = (qs(0), qs(1));
    c19_run(shared, &qa, &qb, made_inside, |i, p| { let (s, t) = if i < len { qa[i] } else { qb[i - len] }; check_query(&g, s, t, p) });
    reach(0);
}
fn key(p: &R) -> Option<(usize, Vec<usize>)> { p.as_ref().map(|p| (p.get_weight(), p.get_nodes().clone())) }
fn c19_run(shared: &FastGraph, qa: &[Q], qb: &[Q], made_inside: bool, verdict: impl Fn(usize, &R)) {
    let mut seen: Vec<Vec<(Option<(usize, Vec<usize>)>, R)>> = (0..qa.len() + qb.len()).map(|_| vec![]).collect();
    let (mut a, mut b) = (create_calculator(shared), create_calculator(shared));
    for _ in 0..reps() {
        let (x, y) = if made_inside {
            par(|| qa.iter().map(|q| calc_path(shared, q.0, q.1)).collect::<Vec<_>>(), || qb.iter().map(|q| calc_path(shared, q.0, q.1)).collect::<Vec<_>>())
        } else {
            let (a, b) = (&mut a, &mut b);
            par(move || qa.iter().map(|q| a.calc_path(shared, q.0, q.1)).collect::<Vec<_>>(), move || qb.iter().map(|q| b.calc_path(shared, q.0, q.1)).collect::<Vec<_>>())
        };
        for (i, p) in x.into_iter().chain(y).enumerate() { let k = key(&p); if !seen[i].iter().any(|e| e.0 == k) { seen[i].push((k, p)); } }
    }
    for (i, e) in seen.iter().enumerate() { for (_, p) in e { verdict(i, p); } }
}
/// weighted sources and targets in both threads
pub fn c19_multi(g: G) {
    let n = g.nodes();
    if n == 0 { return; }
    let f = prepare(&g.input());
    let shared = &f;
    let mut lists = vec![];
    for _ in 0..2 { lists.push((vec![(choose(n), sym(0, WMAX)), (choose(n), sym(0, WMAX))], vec![(choose(n), sym(0, WMAX))])); }
    let mut seen: Vec<Vec<(Option<(usize, Vec<usize>)>, R)>> = vec![vec![], vec![]];
    let (mut a, mut b) = (create_calculator(shared), create_calculator(shared));
    for _ in 0..reps() {
        let (ca, cb) = (&mut a, &mut b);
        let (la, lb) = (&lists[0], &lists[1]);
        let (x, y) = par(move || ca.calc_path_multiple_sources_and_targets(shared, la.0.clone(), la.1.clone()), move || cb.calc_path_multiple_sources_and_targets(shared, lb.0.clone(), lb.1.clone()));
        for (i, p) in [x, y].into_iter().enumerate() { let k = key(&p); if !seen[i].iter().any(|e| e.0 == k) { seen[i].push((k, p)); } }
    }
    for i in 0..2 { for (_, p) in &seen[i] { check_multi(&g, &lists[i].0, &lists[i].1, p); } }
    reach(0);
}
/// larger seeded graphs
pub fn c19_mid(n: usize, m: usize, k: usize, len: usize, variants: usize) {
    let v = param() * 100 + choose(variants);
    let g = seeded(n, m, k, v);
    let f = prepare(&g.input());
    let mut r = Rng(v as u64 + 29);
    let mut qs = |_| -> Vec<Q> { (0..len).map(|_| (r.below(n), r.below(n))).collect() };
    let (qa, qb) = (qs(0), qs(1));
    c19_run(&f, &qa, &qb, flip(), |i, p| { let (s, t) = if i < len { qa[i] } else { qb[i - len] }; check_query_d(&g, &g.dists(s), s, t, p) });
    reach(0);
}
/// two threads prepare a graph each (given order or not)
pub fn c19_prepare(g: G, h: G) {
    let (n, m) = (g.nodes(), h.nodes());
    if n == 0 || m == 0 { return; }
    let (ig, ih) = (g.input(), h.input());
    let (x, y) = par(|| prepare(&ig), || prepare(&ih));
    let (s, t) = (choose(n), choose(n));
    check_query(&g, s, t, &calc_path(&x, s, t));
    let (s, t) = (choose(m), choose(m));
    check_query(&h, s, t, &calc_path(&y, s, t));
    reach(0);
}
