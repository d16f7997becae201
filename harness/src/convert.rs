//! C12, C13: the 32-bit form and Serde.
use crate::api::*;
use crate::capture::*;
use crate::graphs::*;
use crate::structure::*;
use fast_paths::*;

pub const M32: usize = u32::MAX as usize;
/// can every number of a captured prepared graph be represented? (the maximum stands for "none")
fn fits(v: &[usize]) -> bool { let mut all = true; for &x in v { all = and(all, or(lt(x, M32), eq(x, usize::MAX))); } all }
struct Wrap(FastGraph);
impl serde::Serialize for Wrap { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { serialize_32(&self.0, s) } }
impl<'a> serde::Deserialize<'a> for Wrap { fn deserialize<D: serde::Deserializer<'a>>(d: D) -> Result<Self, D::Error> { Ok(Wrap(deserialize_32(d)?)) } }
fn there_and_back(f: &FastGraph, way: usize) -> FastGraph {
    match way {
        0 => FastGraph32::new(f).convert_to_usize(),
        1 => { let b = bincode::serialize(&FastGraph32::new(f)).unwrap(); let x: FastGraph32 = bincode::deserialize(&b).unwrap(); x.convert_to_usize() }
        2 => { let b = bincode::serialize(&Wrap(f.clone())).unwrap(); let x: Wrap = bincode::deserialize(&b).unwrap(); x.0 }
        _ => { let v = capture(&Wrap(f.clone())); let x: Wrap = restore(&v).unwrap(); x.0 }
    }
}
/// prepared graphs with weights around the 32-bit limit
pub fn c12(g: G, lo: usize) {
    let f = if flip() { prepare(&g.input()) } else { let o: Vec<usize> = (0..g.nodes()).collect(); prepare_with_order_with_params(&g.input(), &o, &ParamsWithOrder::new(lo % 2)).unwrap() };
    let way = choose(4);
    let a = flat(&f);
    if !fits(&a) { reach(1); must_panic("a number that does not fit was accepted", || there_and_back(&f, way).get_num_nodes()); return; }
    let x = there_and_back(&f, way);
    check_same(&a, &flat(&x), "contents changed");
    any_query(&g, &x);
    reach(0);
}
/// any contents: one field of one arc / one entry of one list replaced by any number
pub fn c12_any() {
    let g = G { n: 3, e: vec![(0, 1, 5), (1, 2, 7), (1, 0, 2), (2, 0, 9)] };
    let f = prepare(&g.input());
    let mut v = capture(&f);
    let x = sym(0, usize::MAX);
    match choose(5) {
        0 => { if let V::Seq(r) = v.f_mut("ranks", 1) { let i = choose(r.len()); r[i] = V::U(x as u64); } }
        1 => edge(v.f_mut("edges_fwd", 2), x),
        2 => { if let V::Seq(r) = v.f_mut("first_edge_ids_fwd", 3) { let i = choose(r.len()); r[i] = V::U(x as u64); } }
        3 => edge(v.f_mut("edges_bwd", 4), x),
        _ => { if let V::Seq(r) = v.f_mut("first_edge_ids_bwd", 5) { let i = choose(r.len()); r[i] = V::U(x as u64); } }
    }
    let f: FastGraph = match restore(&v) { Ok(f) => f, Err(_) => { check(false, "reading back failed"); return; } };
    let a = flat(&f);
    let mut b = vec![];
    v.flat(&mut b);
    check_same(&a, &b, "reading back changed the contents");
    let way = choose(4);
    if !fits(&a) { reach(1); must_panic("a number that does not fit was accepted", || there_and_back(&f, way).get_num_nodes()); return; }
    let y = there_and_back(&f, way);
    check_same(&a, &flat(&y), "contents changed");
    reach(0);
}
fn edge(es: &mut V, x: usize) {
    if let V::Seq(r) = es { let i = choose(r.len()); let k = choose(5); match &mut r[i] { V::Rec(fs) => fs[k].1 = V::U(x as u64), V::Seq(fs) => fs[k] = V::U(x as u64), _ => {} } }
}
/// sizes: many nodes and arcs (concrete), one symbolic weight
pub fn c12_mid(n: usize, m: usize) {
    let g = seeded(n, m, 1, param());
    for x in &g.e { assume(le(x.2, 1 << 31)); }
    let f = prepare(&g.input());
    let a = flat(&f);
    let way = choose(4);
    if !fits(&a) { reach(1); must_panic("a number that does not fit was accepted", || there_and_back(&f, way).get_num_nodes()); return; }
    check_same(&a, &flat(&there_and_back(&f, way)), "contents changed");
    reach(0);
}
/// prepared graphs through Serde
pub fn c13_fast(g: G) {
    let f = if flip() { prepare(&g.input()) } else { let o: Vec<usize> = (0..g.nodes()).rev().collect(); prepare_with_order_with_params(&g.input(), &o, &ParamsWithOrder::new(sym(0, 2))).unwrap() };
    let a = flat(&f);
    let x: FastGraph = match choose(2) {
        0 => {
            let b = bincode::serialize(&f).unwrap();
            let x: FastGraph = match bincode::deserialize(&b) { Ok(x) => x, Err(_) => { check(false, "reading back failed"); return; } };
            check_bytes(&b, &bincode::serialize(&x).unwrap(), "serializing again gives other bytes");
            x
        }
        _ => { let v = capture(&f); match restore(&v) { Ok(x) => x, Err(_) => { check(false, "reading back failed"); return; } } }
    };
    check_same(&a, &flat(&x), "contents changed");
    check(x.get_num_nodes() == f.get_num_nodes() && x.get_node_ordering() == f.get_node_ordering() && x.get_num_out_edges() == f.get_num_out_edges() && x.get_num_in_edges() == f.get_num_in_edges(), "sizes or ordering changed");
    any_query(&g, &x);
    reach(0);
}
/// input graphs in any state through Serde, then used further
pub fn c13_input(n: usize, k: usize) {
    let mut g = InputGraph::new();
    let mut h = crate::input::Hist::default();
    for _ in 0..k {
        let (a, b, w) = (choose(n), choose(n), sym(0, usize::MAX));
        g.add_edge(a, b, w);
        h.add(a, b, w, false);
    }
    let frozen = flip();
    if frozen { g.freeze(); }
    let mut x: InputGraph = match choose(2) {
        0 => {
            let b = bincode::serialize(&g).unwrap();
            let x: InputGraph = match bincode::deserialize(&b) { Ok(x) => x, Err(_) => { check(false, "reading back failed"); return; } };
            check_bytes(&b, &bincode::serialize(&x).unwrap(), "serializing again gives other bytes");
            x
        }
        _ => { let v = capture(&g); match restore(&v) { Ok(x) => x, Err(_) => { check(false, "reading back failed"); return; } } }
    };
    check_same(&flat(&g), &flat(&x), "contents changed");
    if frozen {
        crate::input::check_frozen(&h, &x);
        match choose(3) {
            0 => { reach(1); must_panic("edge added to a frozen graph", || x.add_edge(0, 1, 2)); return; }
            1 => { reach(1); must_panic("graph frozen twice", || x.freeze()); return; }
            _ => x.thaw(),
        }
    } else if flip() { reach(2); must_panic("unfrozen graph read", || x.get_num_nodes()); return; }
    let (a, b, w) = (choose(n), choose(n), sym(0, usize::MAX));
    check(x.add_edge(a, b, w) == h.add(a, b, w, false), "number of added edges");
    x.freeze();
    crate::input::check_frozen(&h, &x);
    reach(0);
}
pub fn c13_mid(n: usize, m: usize, k: usize) {
    let g = seeded(n, m, k, param());
    let f = prepare(&g.input());
    let b = bincode::serialize(&f).unwrap();
    let x: FastGraph = bincode::deserialize(&b).unwrap();
    check_same(&flat(&f), &flat(&x), "contents changed");
    let mut c = create_calculator(&x);
    let s = choose(n);
    let d = g.dists(s);
    for t in 0..n { let p = c.calc_path(&x, s, t); check_query_d(&g, &d, s, t, &p); }
    reach(0);
}

/// more than 65536 nodes and arcs
pub fn big_bytes(n: usize, small: bool) {
    let mut e = vec![];
    for i in 0..n / 2 { e.push((2 * i, 2 * i + 1, 1 + i % 7)); e.push((2 * i + 1, 2 * i, 2 + i % 5)); }
    let (b, g) = crate::big::Big::new(n, &e, e.len() - 2, 1, 1 << 31);
    let f = prepare(&g);
    let x = if small { there_and_back(&f, 2 * choose(2)) } else { let b = bincode::serialize(&f).unwrap(); bincode::deserialize(&b).unwrap() };
    check_bytes(&bincode::serialize(&f).unwrap(), &bincode::serialize(&x).unwrap(), "contents changed");
    check(x.get_num_nodes() == n && x.get_num_out_edges() == n / 2, "sizes");
    let mut c = create_calculator(&x);
    b.check_from(&x, &mut c, n - 2, &[n - 1, n - 2, 0]);
    b.check_from(&x, &mut c, 1, &[0, 2]);
    reach(0);
}
/// an input graph with more edges than 16 bits count
pub fn big_input(n: usize) {
    let mut g = InputGraph::new();
    let x = sym(1, WMAX);
    for i in 0..n { g.add_edge(i, (i + 1) % n, if i + 2 == n { x } else { 1 + i % 9 }); }
    let frozen = flip();
    if frozen { g.freeze(); }
    let b = bincode::serialize(&g).unwrap();
    let mut y: InputGraph = bincode::deserialize(&b).unwrap();
    check_bytes(&b, &bincode::serialize(&y).unwrap(), "contents changed");
    if !frozen { check(y.add_edge(0, 2, 4) == 1, "an edge was refused"); y.freeze(); }
    check(y.get_num_nodes() == n && y.get_num_edges() == if frozen { n } else { n + 1 }, "sizes");
    check(eq(y.get_edges()[y.get_num_edges() - 2].weight, x), "a weight changed");
    reach(0);
}
