//! Native replayer: runs a harness against the real crate with a recorded list of inputs.
//! stdin: "<harness> <in> <in> ..." per line; stdout: "<status>|<message>|<tag:value ...>" per line.
use std::any::Any;
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

#[derive(Default)]
struct St { inputs: Vec<u64>, pos: usize, obs: String, expect: bool, fail: Option<String> }
thread_local! { static ST: RefCell<St> = RefCell::new(St::default()); }
struct Assumed;
struct Failed(String);
struct BadInput(String);

fn next(what: &str, lo: u64, hi: u64) -> u64 {
    let r = ST.with(|s| { let mut s = s.borrow_mut(); let p = s.pos; s.pos += 1; s.inputs.get(p).copied() });
    match r {
        None => panic_any(BadInput(format!("inputs exhausted at {what}"))),
        Some(v) if v < lo || v > hi => panic_any(BadInput(format!("input {v} outside {lo}..={hi}"))),
        Some(v) => v,
    }
}
#[no_mangle] pub extern "C-unwind" fn fpv_sym(lo: u64, hi: u64) -> u64 { next("sym", lo, hi) }
#[no_mangle] pub extern "C-unwind" fn fpv_choose(n: u64) -> u64 { if n == 0 { panic_any(Assumed) } next("choose", 0, n - 1) }
#[no_mangle] pub extern "C-unwind" fn fpv_assume(c: bool) { if !c { panic_any(Assumed) } }
#[no_mangle] pub extern "C-unwind" fn fpv_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        let m = String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).to_string();
        ST.with(|s| s.borrow_mut().fail = Some(m.clone()));
        panic_any(Failed(m))
    }
}
#[no_mangle] pub extern "C-unwind" fn fpv_observe(tag: u64, v: u64) { ST.with(|s| s.borrow_mut().obs.push_str(&format!("{tag}:{v} "))) }
#[no_mangle] pub extern "C-unwind" fn fpv_reach(_: u64) {}
#[no_mangle] pub extern "C-unwind" fn fpv_expect_panic() { ST.with(|s| s.borrow_mut().expect = true) }
#[no_mangle] pub extern "C-unwind" fn fpv_seed(_: u64) {}
#[no_mangle] pub extern "C-unwind" fn fpv_param() -> u64 { std::env::var("FPV_PARAM").ok().and_then(|x| x.parse().ok()).unwrap_or(1) }
#[no_mangle] pub extern "C-unwind" fn fpv_and(a: bool, b: bool) -> bool { a & b }
#[no_mangle] pub extern "C-unwind" fn fpv_or(a: bool, b: bool) -> bool { a | b }
#[no_mangle] pub extern "C-unwind" fn fpv_le(a: u64, b: u64) -> bool { a <= b }
#[no_mangle] pub extern "C-unwind" fn fpv_lt(a: u64, b: u64) -> bool { a < b }
#[no_mangle] pub extern "C-unwind" fn fpv_eq(a: u64, b: u64) -> bool { a == b }
#[no_mangle] pub extern "C-unwind" fn fpv_ite(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
#[no_mangle] pub extern "C-unwind" fn fpv_reps() -> u64 { std::env::var("FPV_REPS").ok().and_then(|x| x.parse().ok()).unwrap_or(20) }
// processor time of this thread in nanoseconds, only when a counterexample is replayed (FPV_WORK)
#[no_mangle] pub extern "C-unwind" fn fpv_work() -> u64 {
    #[repr(C)] struct Ts(i64, i64);
    extern "C" { fn clock_gettime(c: i32, t: *mut Ts) -> i32; }
    if std::env::var_os("FPV_WORK").is_none() { return 0; }
    let mut t = Ts(0, 0);
    unsafe { clock_gettime(3, &mut t) };
    t.0 as u64 * 1000000000 + t.1 as u64
}
// bytes in use
struct Counting;
static HEAP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { HEAP.fetch_add(l.size(), std::sync::atomic::Ordering::Relaxed); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { HEAP.fetch_add(l.size(), std::sync::atomic::Ordering::Relaxed); std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { HEAP.fetch_sub(l.size(), std::sync::atomic::Ordering::Relaxed); std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { let r = std::alloc::System.realloc(p, l, n); if !r.is_null() { HEAP.fetch_add(n, std::sync::atomic::Ordering::Relaxed); HEAP.fetch_sub(l.size(), std::sync::atomic::Ordering::Relaxed); } r }
}
#[global_allocator] static COUNTING: Counting = Counting;
#[no_mangle] pub extern "C-unwind" fn fpv_heap() -> u64 { HEAP.load(std::sync::atomic::Ordering::Relaxed) as u64 }
// files end after this many bytes: a write beyond fails (EFBIG)
#[no_mangle] pub extern "C-unwind" fn fpv_limit(n: u64) {
    extern "C" { fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; fn getrlimit(r: i32, l: *mut [u64; 2]) -> i32; fn signal(s: i32, h: usize) -> usize; }
    let mut l = [0; 2];
    unsafe { signal(25, 1); getrlimit(1, &mut l); l[0] = n.min(l[1]); setrlimit(1, &l) };
}
#[no_mangle] pub extern "C-unwind" fn fpv_tries() -> u64 { if std::env::var_os("FPV_WORK").is_some() { 3 } else { 1 } }
#[no_mangle] pub extern "C-unwind" fn fpv_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> bool {
    match catch_unwind(AssertUnwindSafe(|| f(d))) {
        Ok(()) => false,
        Err(e) if e.is::<Assumed>() || e.is::<Failed>() || e.is::<BadInput>() => std::panic::resume_unwind(e),
        Err(_) => true,
    }
}
#[no_mangle] pub extern "C-unwind" fn fpv_shallow(f: extern "C-unwind" fn(*mut u8), d: *mut u8, _: u64) {
    let d = d as usize;
    let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 10)
        .spawn_scoped(s, || catch_unwind(AssertUnwindSafe(|| f(d as *mut u8))).err()).unwrap().join().unwrap_or_else(|e| Some(e)));
    if let Some(e) = r { std::panic::resume_unwind(e) }
}
#[no_mangle] pub extern "C-unwind" fn fpv_par(fa: extern "C-unwind" fn(*mut u8), da: *mut u8, fb: extern "C-unwind" fn(*mut u8), db: *mut u8) {
    let (da, db) = (da as usize, db as usize);
    let go = std::sync::atomic::AtomicUsize::new(0);
    let meet = || { go.fetch_add(1, std::sync::atomic::Ordering::SeqCst); while go.load(std::sync::atomic::Ordering::SeqCst) < 2 { std::hint::spin_loop() } };
    let r = std::thread::scope(|s| {
        let h = s.spawn(|| { meet(); catch_unwind(AssertUnwindSafe(|| fb(db as *mut u8))).err() });
        meet();
        let a = catch_unwind(AssertUnwindSafe(|| fa(da as *mut u8))).err();
        a.or(h.join().unwrap_or_else(|e| Some(e)))
    });
    if let Some(e) = r { std::panic::resume_unwind(e) }
}

fn describe(e: Box<dyn Any + Send>) -> (&'static str, String) {
    if e.is::<Assumed>() { return ("assume", String::new()); }
    if let Some(f) = e.downcast_ref::<Failed>() { return ("assert", f.0.clone()); }
    if let Some(f) = e.downcast_ref::<BadInput>() { return ("input", f.0.clone()); }
    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    let expected = ST.with(|s| s.borrow().expect);
    (if expected { "xpanic" } else { "panic" }, m)
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let table = fpvh::table();
    let dir = std::env::args().nth(1);
    if let Some(d) = dir { std::env::set_current_dir(d).unwrap(); }
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let name = match it.next() { None => continue, Some(n) => n.to_string() };
        let f = table.iter().find(|x| x.0 == name).expect("unknown harness").1;
        let inputs = it.map(|x| x.parse().unwrap()).collect();
        // a thread of its own: fresh thread locals, default stack size of Rust threads
        let h = std::thread::spawn(move || {
            ST.with(|s| *s.borrow_mut() = St { inputs, ..St::default() });
            let r = catch_unwind(AssertUnwindSafe(f));
            let (st, msg) = match r { Ok(()) => ("ok", String::new()), Err(e) => describe(e) };
            (st, msg, ST.with(|s| s.borrow().obs.clone()))
        });
        let (st, msg, obs) = h.join().unwrap();
        fpv_limit(u64::MAX);
        println!("{}|{}|{}", st, msg.replace(['|', '\n', '\r'], " "), obs);
        std::io::stdout().flush().unwrap();
    }
}
