//! Small programs with a known verdict, to test the engine itself (check.py --selftest): self_ok_* hold, self_bad_* do not.
use crate::api::*;
use std::hint::black_box as bb;

pub fn ok_float() {
    let (a, b) = (sym(0, usize::MAX), sym(0, usize::MAX));
    if flip() { if a <= b { check(bb(a) as f32 <= bb(b) as f32, "monotone"); } }
    else { assume(le(a, 1 << 53)); check((bb(a) as f64) as usize == a, "exact"); let f = bb(a) as f64; check(-f <= 0.0, "negative"); check((bb(a as i64 as i32) as f64) as i32 == a as i32, "signed"); }
    reach(0);
}
pub fn bad_float_round() { let a = sym(0, 1 << 40); check((bb(a) as f32) as usize == a, "not exact"); }
pub fn bad_float_cmp() { let (a, b) = (sym(0, 1 << 40), sym(0, 1 << 40)); if a < b { check((bb(a) as f32) < (bb(b) as f32), "not strict"); } }
pub fn bad_float_mul() { let a = sym(1, 1 << 20); let x = (bb(a) as f64 * 0.1) * 10.0; check(x == a as f64, "not exact"); }
pub fn ok_float_arith() { let a = sym(1, 1 << 20); let x = bb(a) as f64 / 2.0; check((x * 2.0) as usize == a, "halving"); check((x + x).floor() as usize == a, "sum"); reach(0); }
pub fn ok_arith() {
    let (a, b) = (sym(0, u64::MAX as usize), sym(0, u64::MAX as usize));
    let (s, o) = bb(a).overflowing_add(bb(b));
    check(o == (s < a), "carry");
    check(bb(a) / 10 * 10 + bb(a) % 10 == a, "division");
    check((a ^ b) ^ b == a, "xor");
    check((a & b).wrapping_add(a | b) == a.wrapping_add(b), "and or");
    let c = (a as u8) as i8;
    check((c as i64) < 128 && c as i64 >= -128, "sign");
    check(a.saturating_sub(b).saturating_add(b) >= a, "saturating");
    check((a >> 3) << 3 == a - (a & 7), "shift");
    reach(0);
}
pub fn bad_add() { let (a, b) = (sym(0, usize::MAX), sym(0, usize::MAX)); check(a.wrapping_add(b) >= a, "wraps"); }
pub fn bad_trunc() { let a = sym(0, usize::MAX); check(bb(a as u32) as usize == a, "truncated"); }
pub fn bad_rare() { let a = sym(0, usize::MAX); if a / 3 == 0x1234567 && a % 3 == 2 { check(false, "one value of 2^64"); } }
pub fn bad_index() { let v = vec![1, 2, 3]; let i = sym(0, 3); observe(1, v[i]); }
pub fn ok_sort() {
    let mut v: Vec<usize> = (0..4).map(|_| sym(0, 1000)).collect();
    let m = v.iter().copied().min().unwrap();
    let s: usize = v.iter().sum();
    v.sort();
    check(v[0] == m && v[0] <= v[1] && v[1] <= v[2] && v[2] <= v[3], "sorted");
    check(v.iter().sum::<usize>() == s, "same sum");
    reach(0);
}
pub fn bad_sort() { let mut v: Vec<usize> = (0..4).map(|_| sym(0, 1000)).collect(); v.sort(); check(v[0] < v[1], "strictly"); }
pub fn ok_text() { let a = sym(0, usize::MAX); let t = format!("{}", a); check(t.parse::<usize>() == Ok(a), "parse of format"); reach(0); }
pub fn bad_text() { let a = sym(0, usize::MAX); check(format!("{}", a).len() != 7, "seven digits"); }
pub fn ok_map() {
    let mut m = std::collections::HashMap::new();
    seed(3);
    for i in 0..20usize { m.insert(i, sym(0, 9)); }
    let s: usize = (0..20).map(|i| m[&i]).sum();
    check(m.values().sum::<usize>() == s && s <= 180, "sum over a map");
    reach(0);
}
pub fn ok_try() {
    let a = sym(0, 100);
    let mut n = 0;
    let r = attempt(|| { n += 1; if a > 50 { let v: Vec<usize> = vec![]; n += v[a]; } a + 1 });
    check(n == 1 && r.is_some() == (a <= 50), "panics above 50");
    if let Some(x) = r { check(x == a + 1, "result"); }
    check(attempt(|| attempt(|| -> usize { panic!("inner") }).is_none()) == Some(true), "nested");
    reach(0);
}
pub fn bad_try() { let a = sym(0, 100); let mut n = 0; attempt(|| { n = a; if a > 50 { panic!("after the change") } n = 0; }); check(n == 0, "changed before the panic"); }
pub fn bad_panic() { let a = sym(0, 100); if a == 77 { panic!("seventy-seven"); } }
pub fn bad_loop() { let a = sym(0, 100); let mut i = 0usize; while i != a * 2 + 1 { i = bb(i + 2); if i > 1000 { check(false, "runs away"); return; } } }

// threads
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
pub fn ok_threads() {
    static N: AtomicUsize = AtomicUsize::new(0);
    static M: Mutex<Vec<usize>> = Mutex::new(vec![]);
    N.store(0, SeqCst);
    M.lock().unwrap().clear();
    let x = sym(0, 1000);
    par(|| { N.fetch_add(x, SeqCst); M.lock().unwrap().push(x); }, || { N.fetch_add(2 * x, SeqCst); let mut m = M.lock().unwrap(); m.push(x); m.push(x); });
    check(N.load(SeqCst) == 3 * x, "counter");
    let m = M.lock().unwrap();
    check(m.len() == 3 && m.iter().sum::<usize>() == 3 * x, "list");
    reach(0);
}
/// a lost update
pub fn bad_threads() {
    static N: AtomicUsize = AtomicUsize::new(0);
    let x = sym(0, 1000);
    for _ in 0..reps() {
        N.store(0, SeqCst);
        let f = || { let v = N.load(SeqCst); N.store(v + x, SeqCst); };
        par(f, f);
        check(N.load(SeqCst) == 2 * x, "lost update");
    }
}
/// the lock is released between reading and writing
pub fn bad_threads_lock() {
    static M: Mutex<usize> = Mutex::new(0);
    let x = sym(0, 1000);
    for _ in 0..reps() {
        *M.lock().unwrap() = 0;
        let f = || { let v = *M.lock().unwrap(); *M.lock().unwrap() = v + x; };
        par(f, f);
        check(*M.lock().unwrap() == 2 * x, "lost update");
    }
}
pub fn ok_threads_local() {
    thread_local! { static C: std::cell::Cell<usize> = std::cell::Cell::new(5); }
    let x = sym(0, 1000);
    let f = || { C.with(|c| { c.set(c.get() + x); c.get() }) };
    let (a, b) = par(f, f);
    check(a == x + 5 && b == x + 5 || a == b, "thread locals");
    reach(0);
}

#[inline(never)]
fn down(n: usize, x: &[usize]) -> usize { if n == 0 { return x[0]; } let y = down(n - 1, x); if y == 1000 { 0 } else { y + x[n % x.len()] } }
/// nothing nests deeply
pub fn ok_deep() { let x = sym(1001, 5000); check(shallow(50, || down(40, &[x, 0])) == 21 * x, "sum"); reach(0); }
/// calls nested as deeply as the input is long
pub fn bad_deep() { let x = sym(1001, 2000); let n = 3000 * reps(); check(shallow(200, || down(n, &[x, 0])) >= x, "sum"); }
