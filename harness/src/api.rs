//! The interface between harnesses and whatever runs them: the symbolic executor (engine/) or the native
//! replayer (runner/).
extern "C-unwind" {
    fn fpv_sym(lo: u64, hi: u64) -> u64;
    fn fpv_choose(n: u64) -> u64;
    fn fpv_assume(c: bool);
    fn fpv_assert(c: bool, msg: *const u8, len: usize);
    fn fpv_observe(tag: u64, v: u64);
    fn fpv_reach(id: u64);
    fn fpv_expect_panic();
    fn fpv_seed(n: u64);
    fn fpv_param() -> u64;
    fn fpv_and(a: bool, b: bool) -> bool;
    fn fpv_or(a: bool, b: bool) -> bool;
    fn fpv_le(a: u64, b: u64) -> bool;
    fn fpv_lt(a: u64, b: u64) -> bool;
    fn fpv_eq(a: u64, b: u64) -> bool;
    fn fpv_ite(c: bool, a: u64, b: u64) -> u64;
    fn fpv_par(fa: extern "C-unwind" fn(*mut u8), da: *mut u8, fb: extern "C-unwind" fn(*mut u8), db: *mut u8);
    fn fpv_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> bool;
    fn fpv_shallow(f: extern "C-unwind" fn(*mut u8), d: *mut u8, depth: u64);
    fn fpv_reps() -> u64;
    fn fpv_limit(n: u64);
    fn fpv_heap() -> u64;
    fn fpv_work() -> u64;
    fn fpv_tries() -> u64;
}
/// A symbolic number in lo..=hi: all values at once.
pub fn sym(lo: usize, hi: usize) -> usize { unsafe { fpv_sym(lo as u64, hi as u64) as usize } }
/// One of 0..n, explored one by one.
pub fn choose(n: usize) -> usize { unsafe { fpv_choose(n as u64) as usize } }
pub fn flip() -> bool { choose(2) == 1 }
pub fn assume(c: bool) { unsafe { fpv_assume(c) } }
pub fn check(c: bool, msg: &str) { unsafe { fpv_assert(c, msg.as_ptr(), msg.len()) } }
pub fn observe(tag: usize, v: usize) { unsafe { fpv_observe(tag as u64, v as u64) } }
/// Vacuity witness: the driver demands that every id listed for a harness was reached on some path.
pub fn reach(id: usize) { unsafe { fpv_reach(id as u64) } }
/// From here on a panic is the required outcome of the path.
pub fn expect_panic() { unsafe { fpv_expect_panic() } }
pub fn seed(n: usize) { unsafe { fpv_seed(n as u64) } }
/// The seed of the run (VERIF_SEED).
pub fn param() -> usize { unsafe { fpv_param() as usize } }
/// A call that has to panic; returning from it is a violation.
pub fn must_panic<T>(msg: &str, f: impl FnOnce() -> T) { expect_panic(); f(); check(false, msg); }
// Comparisons that become one formula instead of a branch.
pub fn and(a: bool, b: bool) -> bool { unsafe { fpv_and(a, b) } }
pub fn or(a: bool, b: bool) -> bool { unsafe { fpv_or(a, b) } }
pub fn le(a: usize, b: usize) -> bool { unsafe { fpv_le(a as u64, b as u64) } }
pub fn lt(a: usize, b: usize) -> bool { unsafe { fpv_lt(a as u64, b as u64) } }
pub fn eq(a: usize, b: usize) -> bool { unsafe { fpv_eq(a as u64, b as u64) } }
pub fn ite(c: bool, a: usize, b: usize) -> usize { unsafe { fpv_ite(c, a as u64, b as u64) as usize } }

extern "C-unwind" fn tramp<T, F: FnOnce() -> T>(d: *mut u8) { let d = unsafe { &mut *(d as *mut (Option<F>, Option<T>)) }; let f = d.0.take().unwrap(); d.1 = Some(f()); }
/// Two threads. The engine explores their interleavings, the replayer starts two threads. The closures must not use this interface.
pub fn par<A, B, FA: FnOnce() -> A, FB: FnOnce() -> B>(fa: FA, fb: FB) -> (A, B) {
    let mut a: (Option<FA>, Option<A>) = (Some(fa), None);
    let mut b: (Option<FB>, Option<B>) = (Some(fb), None);
    unsafe { fpv_par(tramp::<A, FA>, &mut a as *mut _ as *mut u8, tramp::<B, FB>, &mut b as *mut _ as *mut u8) };
    (a.1.unwrap(), b.1.unwrap())
}
/// The result of a call, or none if it panicked.
pub fn attempt<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    let mut a: (Option<F>, Option<T>) = (Some(f), None);
    if unsafe { fpv_try(tramp::<T, F>, &mut a as *mut _ as *mut u8) } { None } else { a.1 }
}
/// A call that has to panic, and the story goes on.
pub fn refused<T>(msg: &str, f: impl FnOnce() -> T) { check(attempt(f).is_none(), msg); }
/// A call that must not nest calls deeper than `depth`; the replayer gives it a small stack. The closure must not use this interface.
pub fn shallow<T, F: FnOnce() -> T>(depth: usize, f: F) -> T {
    let mut a: (Option<F>, Option<T>) = (Some(f), None);
    unsafe { fpv_shallow(tramp::<T, F>, &mut a as *mut _ as *mut u8, depth as u64) };
    a.1.unwrap()
}
/// No file gets longer than `n` bytes while `f` runs: a write that reaches the limit takes what fits, the next one fails.
pub fn limited<T>(n: usize, f: impl FnOnce() -> T) -> T { unsafe { fpv_limit(n as u64) }; let r = f(); unsafe { fpv_limit(u64::MAX) }; r }
/// Bytes in use on the heap.
pub fn heap() -> usize { unsafe { fpv_heap() as usize } }
/// How often a replay repeats what two threads do (once in the engine, which explores the interleavings itself).
pub fn reps() -> usize { unsafe { fpv_reps() as usize } }
/// How often costs are measured: once in the engine.
pub fn tries() -> usize { unsafe { fpv_tries() as usize } }
/// What `f` costs: instructions and moved words in the engine, processor time when a counterexample is replayed, nothing otherwise.
pub fn cost<T>(f: impl Fn() -> T) -> (T, usize) {
    let a = unsafe { fpv_work() };
    let mut r = f();
    let mut c = unsafe { fpv_work() } - a;
    for _ in 1..unsafe { fpv_tries() } {
        let a = unsafe { fpv_work() };
        r = f();
        c = c.min(unsafe { fpv_work() } - a);
    }
    (r, c as usize)
}
