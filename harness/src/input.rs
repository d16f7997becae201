//! C10, C11, C14: the input graph.
use crate::api::*;
use crate::graphs::*;
use fast_paths::*;

/// the accepted edges of a history
#[derive(Clone, Default)]
pub struct Hist { pub e: Vec<E3>, pub nodes: usize }
impl Hist {
    pub fn add(&mut self, a: usize, b: usize, w: usize, bi: bool) -> usize {
        if a == b || w == 0 { return 0; }
        self.e.push((a, b, w));
        self.nodes = self.nodes.max(a + 1).max(b + 1);
        if bi { self.e.push((b, a, w)); 2 } else { 1 }
    }
}
/// the frozen graph is exactly the normalised history (node ids concrete, weights symbolic)
pub fn check_frozen(h: &Hist, g: &InputGraph) {
    let es = g.get_edges();
    check(g.get_num_edges() == es.len(), "edge count");
    check(g.get_num_nodes() == h.nodes, "node count");
    for i in 0..es.len() {
        observe(4, es[i].weight);
        if i > 0 { check((es[i - 1].from, es[i - 1].to) < (es[i].from, es[i].to), "edges are not sorted or not unique"); }
        let mut all = true;
        let mut any = false;
        for &(a, b, w) in &h.e { if a == es[i].from && b == es[i].to { all = and(all, le(es[i].weight, w)); any = or(any, eq(es[i].weight, w)); } }
        check(and(all, any), "an edge does not carry the smallest weight added for it");
    }
    for &(a, b, _) in &h.e { check(es.iter().any(|x| x.from == a && x.to == b), "an added edge is missing"); }
}
pub fn c10(n: usize, k: usize) {
    let mut g = InputGraph::new();
    let mut h = Hist::default();
    for _ in 0..k {
        let (a, b) = (choose(n), choose(n));
        let w = sym(0, usize::MAX);
        let bi = flip();
        let r = if bi { g.add_edge_bidir(a, b, w) } else { g.add_edge(a, b, w) };
        check(r == h.add(a, b, w, bi), "number of added edges");
    }
    g.freeze();
    check_frozen(&h, &g);
    reach(0);
}
/// node ids symbolic as well
pub fn c10_ids(k: usize) {
    let mut g = InputGraph::new();
    let mut h: Vec<E3> = vec![];
    let mut nodes = 0;
    for _ in 0..k {
        let (a, b, w) = (sym(0, usize::MAX - 1), sym(0, usize::MAX - 1), sym(0, usize::MAX));
        let bi = flip();
        let r = if bi { g.add_edge_bidir(a, b, w) } else { g.add_edge(a, b, w) };
        if a == b || w == 0 { check(r == 0, "number of added edges"); continue; }
        check(r == if bi { 2 } else { 1 }, "number of added edges");
        h.push((a, b, w));
        if bi { h.push((b, a, w)); }
        nodes = ite(le(nodes, a), a + 1, nodes);
        nodes = ite(le(nodes, b), b + 1, nodes);
    }
    g.freeze();
    check(eq(g.get_num_nodes(), nodes), "node count");
    let es = g.get_edges();
    check(g.get_num_edges() == es.len(), "edge count");
    for i in 0..es.len() {
        observe(4, es[i].weight);
        observe(5, es[i].from);
        if i > 0 { check(or(lt(es[i - 1].from, es[i].from), and(eq(es[i - 1].from, es[i].from), lt(es[i - 1].to, es[i].to))), "edges are not sorted or not unique"); }
        let mut all = true;
        let mut any = false;
        for &(a, b, w) in &h {
            let here = and(eq(a, es[i].from), eq(b, es[i].to));
            all = and(all, or(!here, le(es[i].weight, w)));
            any = or(any, and(here, eq(es[i].weight, w)));
        }
        check(and(all, any), "an edge does not carry the smallest weight added for it");
    }
    for &(a, b, _) in &h {
        let mut any = false;
        for x in es { any = or(any, and(eq(a, x.from), eq(b, x.to))); }
        check(any, "an added edge is missing");
    }
    reach(0);
}
/// longer histories: seeded node ids, some weights symbolic
pub fn c10_long(k: usize, syms: usize) {
    let mut g = InputGraph::new();
    let mut h = Hist::default();
    let mut r = Rng(param() as u64 + 31);
    for i in 0..k {
        let (a, b) = (r.below(7), r.below(7));
        let w = if i % (k / syms) == 3 { sym(0, usize::MAX) } else { r.below(5) };
        let bi = r.below(4) == 0;
        let x = if bi { g.add_edge_bidir(a, b, w) } else { g.add_edge(a, b, w) };
        check(x == h.add(a, b, w, bi), "number of added edges");
    }
    g.freeze();
    check_frozen(&h, &g);
    reach(0);
}
/// more additions than 16 bits count
pub fn c10_big(k: usize) {
    let mut g = InputGraph::new();
    let mut r = Rng(param() as u64 + 33);
    let mut best = std::collections::BTreeMap::new();
    let x = sym(1, usize::MAX);
    let at = k - 1 - r.below(k / 4);
    let mut nodes = 0;
    let mut seen = None;
    for i in 0..k {
        let (a, b, w) = if i == at { seen = Some((300, 5)); (300, 5, x) } else { (r.below(400), r.below(300), r.below(2000)) };
        let z = if i % 9 == 4 { g.add_edge_bidir(a, b, w) } else { g.add_edge(a, b, w) };
        if a == b || w == 0 { check(z == 0, "number of added edges"); continue; }
        nodes = nodes.max(a + 1).max(b + 1);
        check(z == if i % 9 == 4 { 2 } else { 1 }, "number of added edges");
        for (a, b) in if i % 9 == 4 { vec![(a, b), (b, a)] } else { vec![(a, b)] } {
            if i == at { continue; }
            let o = best.entry((a, b)).or_insert(w);
            if w < *o { *o = w; }
        }
    }
    g.freeze();
    if let Some(p) = seen { let o = best.get(&p).copied(); best.insert(p, match o { None => x, Some(o) => ite(le(o, x), o, x) }); if (at % 9) == 4 { let q = (p.1, p.0); let o = best.get(&q).copied(); best.insert(q, match o { None => x, Some(o) => ite(le(o, x), o, x) }); } }
    check(g.get_num_nodes() == nodes && g.get_num_edges() == best.len() && g.get_edges().len() == best.len(), "number of nodes or edges");
    for (e, (p, w)) in g.get_edges().iter().zip(&best) { check((e.from, e.to) == *p && eq(e.weight, *w), "an edge differs"); }
    reach(0);
}
/// long histories, with refused operations in between
pub fn c11_long(k: usize, variants: usize) {
    let mut r = Rng(param() as u64 * 100 + 34 + choose(variants) as u64);
    let mut g = InputGraph::new();
    let mut h = Hist::default();
    let mut frozen = false;
    for i in 0..k {
        match r.below(12) {
            0..=5 => {
                let (a, b) = (r.below(6), r.below(6));
                let w = if i % (k / 3) == k / 4 { sym(0, WMAX) } else { r.below(9) };
                let bi = r.below(4) == 0;
                if frozen { refused("edge added to a frozen graph", || if bi { g.add_edge_bidir(a, b, w) } else { g.add_edge(a, b, w) }); if r.below(3) == 0 { g.thaw(); frozen = false; } continue; }
                let x = if bi { g.add_edge_bidir(a, b, w) } else { g.add_edge(a, b, w) };
                check(x == h.add(a, b, w, bi), "number of added edges");
            }
            6 | 7 => if frozen { refused("graph frozen twice", || g.freeze()) } else { g.freeze(); frozen = true; check_frozen(&h, &g); },
            8 | 9 => { g.thaw(); frozen = false; }
            10 => { let c = g.clone(); g = c; }
            _ => if frozen { check_frozen(&h, &g); let f = prepare(&g); check(f.get_num_nodes() == h.nodes, "nodes of the prepared graph"); } else { refused("unfrozen graph read", || g.get_num_edges()); refused("unfrozen graph prepared", || prepare(&g)) },
        }
    }
    if !frozen { g.freeze(); }
    check_frozen(&h, &g);
    reach(0);
}
/// any history of `k` operations
pub fn c11(n: usize, k: usize) {
    let mut g = InputGraph::new();
    let mut h = Hist::default();
    let mut frozen = false;
    for _ in 0..k {
        match choose(5) {
            0 => {
                let (a, b, w) = (choose(n), choose(n), sym(0, WMAX));
                if frozen { reach(1); refused("edge added to a frozen graph", || if flip() { g.add_edge(a, b, w) } else { g.add_edge_bidir(a, b, w) }); continue; }
                let bi = flip();
                let r = if bi { g.add_edge_bidir(a, b, w) } else { g.add_edge(a, b, w) };
                check(r == h.add(a, b, w, bi), "number of added edges");
            }
            1 => {
                if frozen { reach(2); refused("graph frozen twice", || g.freeze()); continue; }
                g.freeze();
                frozen = true;
            }
            2 => { g.thaw(); frozen = false; }
            3 => {
                if !frozen {
                    reach(3);
                    match choose(7) {
                        0 => refused("edges of an unfrozen graph", || g.get_edges().len()),
                        1 => refused("node count of an unfrozen graph", || g.get_num_nodes()),
                        2 => refused("edge count of an unfrozen graph", || g.get_num_edges()),
                        3 => refused("unfrozen graph prepared", || prepare(&g)),
                        4 => refused("unfrozen graph prepared", || prepare_with_params(&g, &Params::default())),
                        5 => { let o: Vec<usize> = (0..h.nodes).collect(); refused("unfrozen graph prepared", || prepare_with_order(&g, &o).is_ok()) }
                        _ => { let o: Vec<usize> = (0..h.nodes).collect(); refused("unfrozen graph prepared", || prepare_with_order_with_params(&g, &o, &ParamsWithOrder::default()).is_ok()) }
                    }
                    continue;
                }
                check_frozen(&h, &g);
            }
            _ => { let c = g.clone(); g = c; }
        }
    }
    if !frozen { g.freeze(); }
    check_frozen(&h, &g);
    // the same as adding everything to a new graph
    let mut x = InputGraph::new();
    for &(a, b, w) in &h.e { x.add_edge(a, b, w); }
    x.freeze();
    check(x.get_num_nodes() == g.get_num_nodes() && x.get_num_edges() == g.get_num_edges(), "differs from a graph frozen once");
    for i in 0..x.get_num_edges() {
        let (p, q) = (&x.get_edges()[i], &g.get_edges()[i]);
        check(and(p.from == q.from && p.to == q.to, eq(p.weight, q.weight)), "differs from a graph frozen once");
    }
    reach(0);
}
/// change a prepared graph's input after thawing and prepare again
pub fn c11_thaw(g0: G, n: usize) {
    let mut g = g0.input();
    let mut h = Hist::default();
    for &(a, b, w) in &g0.e { h.add(a, b, w, false); }
    let _ = prepare(&g);
    g.thaw();
    let (a, b, w) = (choose(n), choose(n), sym(0, WMAX));
    check(g.add_edge(a, b, w) == h.add(a, b, w, false), "number of added edges");
    g.freeze();
    check_frozen(&h, &g);
    let f = prepare(&g);
    let r = G { n: h.nodes, e: h.e };
    check(f.get_num_nodes() == h.nodes, "node count of the prepared graph");
    any_query(&r, &f);
    reach(0);
}
// ---------------------------------------------------------------- files
fn write(name: &str, lines: &[u8]) { std::fs::write(name, lines).unwrap(); }
fn save(g: &InputGraph, dimacs: bool, name: &str) -> bool { (if dimacs { g.to_dimacs_file(name) } else { g.to_file(name) }).is_ok() }
fn load(dimacs: bool, name: &str) -> InputGraph { if dimacs { InputGraph::from_dimacs_file(name) } else { InputGraph::from_file(name) } }
/// any number with 1..=max digits; every number of digits on a path of its own
fn digits(max: usize) -> usize {
    let k = 1 + choose(max);
    let lo = if k == 1 { 0 } else { 10usize.pow(k as u32 - 1) };
    sym(lo, if k == 20 { usize::MAX } else { 10usize.pow(k as u32) - 1 })
}
/// written and read back: one edge, any ids and any weight
pub fn c14_edge(ids: usize, weight: usize) {
    let dimacs = flip();
    let mut g = InputGraph::new();
    let (a, b, w) = (digits(ids), digits(ids), digits(weight));
    assume(and(and(le(a, usize::MAX - 2), le(b, usize::MAX - 2)), w > 0));
    g.add_edge(a, b, w);
    g.freeze();
    check(save(&g, dimacs, "g.txt"), "writing failed");
    let x = load(dimacs, "g.txt");
    check(eq(x.get_num_nodes(), g.get_num_nodes()), "number of nodes changed");
    if a == b { check(x.get_num_edges() == 0, "number of edges changed"); return; }
    check(x.get_num_edges() == 1 && g.get_num_edges() == 1, "number of edges changed");
    let q = &x.get_edges()[0];
    observe(6, q.weight);
    check(and(and(eq(a, q.from), eq(b, q.to)), eq(w, q.weight)), "an edge changed");
    reach(0);
}
/// written and read back: any graph of n nodes with at most k edges, weights of up to d digits
pub fn c14_roundtrip(n: usize, k: usize, d: usize) {
    let dimacs = flip();
    let mut e = vec![];
    for a in 0..n { for b in 0..n { if a != b && e.len() < k && flip() { let w = digits(d); assume(w > 0); e.push((a, b, w)); } } }
    let g = G { n, e }.input();
    check(save(&g, dimacs, "g.txt"), "writing failed");
    let x = load(dimacs, "g.txt");
    same_graph(&g, &x);
    reach(0);
}
fn same_graph(g: &InputGraph, x: &InputGraph) {
    check(x.get_num_nodes() == g.get_num_nodes() && x.get_num_edges() == g.get_num_edges(), "number of nodes or edges changed");
    if x.get_num_edges() != g.get_num_edges() { return; }
    for i in 0..g.get_num_edges() {
        let (p, q) = (&g.get_edges()[i], &x.get_edges()[i]);
        observe(6, q.weight);
        check(and(p.from == q.from && p.to == q.to, eq(p.weight, q.weight)), "an edge changed");
    }
}
/// a file is replaced, not extended; larger than one write buffer
pub fn c14_big(m: usize) {
    let dimacs = flip();
    let mut g = InputGraph::new();
    let w = sym(1, 9);
    for i in 0..m { g.add_edge(i % 50, (i * 7 + 1) % 50 + 50 * (i / 50), if i == m / 2 { w } else { 1 + i }); }
    g.freeze();
    write("g.txt", b"a 3 4 5\nthis is longer than what follows, or not, in any case it has to go\n");
    if flip() { check(save(&g, !dimacs, "g.txt"), "writing failed"); }
    check(save(&g, dimacs, "g.txt"), "writing failed");
    same_graph(&g, &load(dimacs, "g.txt"));
    reach(0);
}
/// a device that takes no data: success must not be reported
pub fn c14_full(m: usize) {
    let dimacs = flip();
    let mut g = InputGraph::new();
    for i in 0..m { g.add_edge(i, i + 1, sym(1, 9)); }
    g.freeze();
    check(!save(&g, dimacs, "/dev/full"), "success reported although nothing was written");
    reach(0);
}
/// a device that runs full at any point: success is reported only if everything was written, and always if everything fits
pub fn c14_limit(m: usize, near: usize) {
    let dimacs = flip();
    let mut g = InputGraph::new();
    for i in 0..m { g.add_edge(i, i + 1, if i == m / 2 { sym(1, 9) } else { 1 + i }); }
    g.freeze();
    if flip() { write("g.txt", b"a 3 4 5\na 4 5 6\n"); }
    check(save(&g, dimacs, "h.txt"), "writing failed");
    let len = std::fs::read("h.txt").unwrap().len();
    // `near` bytes at the start, around every multiple of the buffer size and at the end
    let mid = if len > 16384 { (8192 - near / 2) + 8192 * choose(2) } else { 0 };
    let lo = match choose(3) { 0 => 0, 1 => mid, _ => len.saturating_sub(near / 2) };
    let k = sym(lo, lo + near);
    let ok = limited(k, || save(&g, dimacs, "g.txt"));
    if le(len, k) { reach(1); check(ok, "writing failed although there was room"); }
    if ok { same_graph(&g, &load(dimacs, "g.txt")); } else { reach(2); }
    // and nothing of it is left behind
    check(save(&g, dimacs, "g.txt"), "writing failed");
    same_graph(&g, &load(dimacs, "g.txt"));
    reach(0);
}
/// an unfrozen graph cannot be written
pub fn c14_unfrozen() {
    let mut g = InputGraph::new();
    g.add_edge(0, 1, sym(1, 9));
    reach(0);
    if flip() { must_panic("unfrozen graph written", || g.to_file("g.txt").is_ok()) } else { must_panic("unfrozen graph written", || g.to_dimacs_file("g.txt").is_ok()) }
}
fn digit(lo: usize, hi: usize) -> (u8, usize) { let d = sym(lo, hi); ((b'0' + d as u8), d) }
/// DIMACS input of `k` lines of any kind with symbolic ids and counts
pub fn c14_dimacs(k: usize, ids: usize) {
    let mut text: Vec<u8> = vec![];
    let mut bad = false;            // has to be refused
    let mut header: Option<(usize, usize)> = None;
    let mut h: Vec<E3> = vec![];
    let mut arcs = 0;
    for _ in 0..k {
        match choose(6) {
            0 => match choose(3) { 0 => text.extend(b"\n"), 1 => text.extend(b"c a 1 2 3\n"), _ => text.extend(b"c\n") },
            1 => {
                let (c, x) = digit(0, 9); let (d, y) = digit(0, 3);
                text.extend(b"p sp "); text.push(c); text.push(b' '); text.push(d); text.push(b'\n');
                if header.is_some() { bad = true; } else { header = Some((x, y)); }
            }
            2 | 3 => {
                let (c, x) = digit(0, ids); let (d, y) = digit(0, ids); let (e, w) = digit(0, 9);
                text.extend(b"a "); text.push(c); text.push(b' '); text.push(d); text.push(b' '); text.push(e); text.push(b'\n');
                match header {
                    None => bad = true,
                    Some((n, m)) => { if x > n || y > n || x == 0 || y == 0 || arcs >= m { bad = true; } else { arcs += 1; if x != y && w != 0 { h.push((x - 1, y - 1, w)); } } }
                }
            }
            4 => { bad = true; match choose(6) { 0 => text.extend(b"x\n"), 1 => text.extend(b" \n"), 2 => text.extend(b"b 1 2 3\n"), 3 => text.extend(b"p 3 1\n"), 4 => text.extend(b"p sp 3\n"), _ => text.extend(b"p sp 3 1 1\n") } }
            _ => { bad = true; match choose(6) { 0 => text.extend(b"a 1 2\n"), 1 => text.extend(b"a 1 2 3 4\n"), 2 => text.extend(b"a 1 2 x\n"), 3 => text.extend(b"a1 2 3\n"), 4 => text.extend(b"a 1 2 -3\n"), _ => text.extend(b"a 1 2 18446744073709551616\n") } }
        }
        if bad { break; }
    }
    if !bad { if let Some((_, m)) = header { if arcs != m { bad = true; } } }
    write("g.txt", &text);
    if bad { reach(1); must_panic("invalid DIMACS input accepted", || InputGraph::from_dimacs_file("g.txt").get_num_nodes()); return; }
    let g = InputGraph::from_dimacs_file("g.txt");
    let mut hist = Hist::default();
    for &(a, b, w) in &h {
        // ids that were not told apart above are concrete digits by now
        hist.e.push((a, b, w));
    }
    check_ids(&hist.e, &g);
    if header.is_some() { reach(2); }
    reach(0);
}
/// numbers of any length in one place of an otherwise valid document
pub fn c14_wide(max: usize) {
    let number = |text: &mut Vec<u8>| {
        let k = 1 + choose(max);
        let mut v = 0usize;
        let mut over = false;
        for _ in 0..k {
            let (c, x) = digit(0, 9);
            text.push(c);
            // 10 * v + x does not fit
            over = or(over, or(lt(usize::MAX / 10, v), and(eq(v, usize::MAX / 10), lt(usize::MAX % 10, x))));
            v = v.wrapping_mul(10).wrapping_add(x);
        }
        (v, over)
    };
    let place = choose(5);
    let mut t = vec![];
    let mut v = [2, 1, 1, 2, 7];
    let mut over = false;
    for i in 0..5 {
        t.extend([&b"p sp "[..], b" ", b"\na ", b" ", b" "][i]);
        if i == place { let (x, o) = number(&mut t); v[i] = x; over = o; } else { t.push(b'0' + v[i] as u8); }
    }
    t.extend(b"\n");
    write("g.txt", &t);
    let good = and(and(!over, eq(v[1], 1)), and(and(le(1, v[2]), le(v[2], v[0])), and(le(1, v[3]), le(v[3], v[0]))));
    if !good { reach(1); must_panic("invalid DIMACS input accepted", || InputGraph::from_dimacs_file("g.txt").get_num_nodes()); return; }
    let g = InputGraph::from_dimacs_file("g.txt");
    let mut h = vec![];
    if v[2] != v[3] && v[4] != 0 { h.push((v[2] - 1, v[3] - 1, v[4])); }
    check_ids(&h, &g);
    reach(0);
}
/// like check_frozen, for symbolic ids
fn check_ids(h: &[E3], g: &InputGraph) {
    let es = g.get_edges();
    let mut nodes = 0;
    for &(a, b, _) in h { nodes = ite(le(nodes, a), a + 1, nodes); nodes = ite(le(nodes, b), b + 1, nodes); }
    check(eq(g.get_num_nodes(), nodes), "node count");
    for x in es {
        observe(6, x.weight);
        let mut all = true;
        let mut any = false;
        for &(a, b, w) in h { let here = and(eq(a, x.from), eq(b, x.to)); all = and(all, or(!here, le(x.weight, w))); any = or(any, and(here, eq(x.weight, w))); }
        check(and(all, any), "an edge that the file does not describe");
    }
    for &(a, b, _) in h { let mut any = false; for x in es { any = or(any, and(eq(a, x.from), eq(b, x.to))); } check(any, "an edge of the file is missing"); }
}
/// text files: lines that are not arcs are ignored, ids are 0-based
pub fn c14_text(k: usize) {
    let mut text: Vec<u8> = vec![];
    let mut h: Vec<E3> = vec![];
    for _ in 0..k {
        match choose(4) {
            0 => match choose(5) { 0 => text.extend(b"\n"), 1 => text.extend(b"c comment\n"), 2 => text.extend(b"p sp 1 1\n"), 3 => text.extend(b"x 1 2 3\n"), _ => text.extend(b"arc 1 2 3\n") },
            _ => {
                let (c, x) = digit(0, 9); let (d, y) = digit(0, 9); let (e, w) = digit(0, 9);
                text.extend(b"a "); text.push(c);
                text.extend(if flip() { &b" "[..] } else { &b"  "[..] });
                text.push(d); text.push(b' '); text.push(e);
                text.extend(if flip() { &b"\n"[..] } else { &b" \r\n"[..] });
                if x != y && w != 0 { h.push((x, y, w)); }
            }
        }
    }
    write("g.txt", &text);
    let g = InputGraph::from_file("g.txt");
    check_ids(&h, &g);
    reach(0);
}
