//! Native replay: runs a harness on concrete bytes against the real decoder.
//! stdin: lines "ENTRY HEXBYTES|- ARG...". For each line prints one line:
//!   "ok HASH", "infeasible", "assert ID", "alloc SIZE"; a panic ends the process with its message.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
struct A;
fn grow(n: u64) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
    if l > LIMIT.load(Relaxed) {
        LIMIT.store(u64::MAX, Relaxed);
        finish(&format!("alloc {}", l));
    }
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size() as u64);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size() as u64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n as u64 > l.size() as u64 {
            grow(n as u64 - l.size() as u64);
        } else {
            LIVE.fetch_sub((l.size() - n) as u64, Relaxed);
        }
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static GA: A = A;

#[derive(Default)]
struct Ctx {
    bytes: Vec<u8>,
    pos: usize,
    args: Vec<u64>,
    hash: u64,
}
thread_local! { static C: RefCell<Ctx> = RefCell::new(Ctx::default()); }

/// Ends the process after the first failed assertion: the harness cannot be left otherwise.
fn finish(s: &str) -> ! {
    println!("{}", s);
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}
#[unsafe(no_mangle)]
extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    C.with(|c| {
        let mut c = c.borrow_mut();
        for i in 0..n {
            let b = c.bytes.get(c.pos).copied().unwrap_or(0);
            c.pos += 1;
            unsafe { *p.add(i) = b }
        }
    })
}
#[unsafe(no_mangle)]
extern "C" fn sym_assume(x: bool) {
    if !x {
        finish("infeasible")
    }
}
#[unsafe(no_mangle)]
extern "C" fn sym_assert(x: bool, id: u64) {
    if !x {
        finish(&format!("assert {}", id))
    }
}
#[unsafe(no_mangle)]
extern "C" fn sym_assert_eq(a: *const u64, b: *const u64, n: usize, id: u64) {
    let (a, b) = unsafe { (std::slice::from_raw_parts(a, n), std::slice::from_raw_parts(b, n)) };
    if a != b {
        if std::env::var("REPLAY_VERBOSE").is_ok() {
            println!("# got      {:x?}\n# expected {:x?}", a, b);
        }
        finish(&format!("assert {}", id))
    }
}
/// Ends this line, successfully.
struct Done;
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_done() -> ! {
    std::panic::resume_unwind(Box::new(Done))
}
#[unsafe(no_mangle)]
extern "C" fn sym_cover(_: u64) {}
#[unsafe(no_mangle)]
extern "C" fn sym_trace(v: u64) {
    C.with(|c| {
        let mut c = c.borrow_mut();
        for b in v.to_le_bytes() {
            c.hash = (c.hash ^ b as u64).wrapping_mul(0x100000001b3);
        }
    })
}
#[unsafe(no_mangle)]
extern "C" fn sym_alloc_limit(n: u64) {
    LIMIT.store(if n == 0 { u64::MAX } else { LIVE.load(Relaxed).saturating_add(n) }, Relaxed);
}
/// Steps cannot be counted here; a fifth of a nanosecond of processor time is less than one takes.
static WORK: AtomicU64 = AtomicU64::new(0);
static SINCE: AtomicU64 = AtomicU64::new(0);
static BEST: AtomicU64 = AtomicU64::new(u64::MAX);
fn cpu() -> u64 {
    unsafe extern "C" {
        fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}
#[unsafe(no_mangle)]
extern "C" fn sym_work_limit(n: u64) {
    if n == 0 {
        BEST.fetch_min(cpu() - SINCE.load(Relaxed), Relaxed);
    } else if n == u64::MAX {
        // only a counterexample is judged
        let took = BEST.swap(u64::MAX, Relaxed);
        if cfg!(not(debug_assertions)) && std::env::var("REPLAY_VERBOSE").is_ok() && took > WORK.load(Relaxed) / 5 {
            finish(&format!("work {}", took));
        }
    } else {
        WORK.store(n, Relaxed);
        SINCE.store(cpu(), Relaxed);
    }
}
#[unsafe(no_mangle)]
extern "C" fn sym_concretize(x: u64) -> u64 {
    x
}
#[unsafe(no_mangle)]
extern "C" fn sym_is_native() -> u64 {
    1
}
#[unsafe(no_mangle)]
extern "C" fn sym_peak() -> u64 {
    PEAK.load(Relaxed)
}
#[unsafe(no_mangle)]
extern "C" fn sym_depth() -> u64 {
    0
}
#[unsafe(no_mangle)]
extern "C" fn sym_arg(i: u64) -> u64 {
    C.with(|c| c.borrow().args.get(i as usize).copied().unwrap_or(u64::MAX))
}
fn main() {
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.len() < 2 {
            continue;
        }
        let bytes: Vec<u8> = if w[1] == "-" { vec![] } else { (0..w[1].len() / 2).map(|i| u8::from_str_radix(&w[1][2 * i..2 * i + 2], 16).unwrap()).collect() };
        let args: Vec<u64> = w[2..].iter().map(|x| x.parse().unwrap()).collect();
        if std::env::var("REPLAY_VERBOSE").is_ok() {
            println!("# {} bytes {}", w[0], w[1]);
        }
        C.with(|c| *c.borrow_mut() = Ctx { bytes, pos: 0, args, hash: 0xcbf29ce484222325 });
        let f = harness::ENTRIES.iter().find(|e| e.0 == w[0]).expect("entry").1;
        if let Err(e) = std::panic::catch_unwind(|| f()) {
            if e.downcast_ref::<Done>().is_none() {
                std::panic::resume_unwind(e);
            }
        }
        println!("ok {:016x}", C.with(|c| c.borrow().hash));
    }
}
