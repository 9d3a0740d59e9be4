//! Runs the harnesses natively on recorded tapes.
//!
//! usage: replay FILE [ALLOC_LIMIT]
//! FILE has one line per run: `ENTRY REPEAT v,v,v`.  For each line, one line of
//! output: `OK o,o,o` (what was observed), `FAIL kind message`, or `TAPE why` when
//! the tape does not fit the harness.  Stops after the first FAIL.
#[path = "../../harness/src/lib.rs"]
#[macro_use]
mod harness;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
struct Limited;
unsafe fn over(n: usize) {
    if n > LIMIT.load(Relaxed) {
        extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; }
        let m = b"FAIL allocation larger than the limit\n";
        write(1, m.as_ptr(), m.len());
        _exit(1);
    }
}
unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { over(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { over(l.size()); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { over(n); System.realloc(p, l, n) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Limited = Limited;

thread_local! {
    static TAPE: RefCell<(Vec<u64>, usize)> = RefCell::new((vec![], 0));
    static OBS: RefCell<Vec<u64>> = RefCell::new(vec![]);
    static FAILED: RefCell<Option<String>> = RefCell::new(None);
    static QUIT: Cell<bool> = Cell::new(false);
}
struct Quit;
fn quit(why: String) -> ! {
    QUIT.with(|q| q.set(true));
    FAILED.with(|f| *f.borrow_mut() = Some(why));
    std::panic::resume_unwind(Box::new(Quit))
}
#[no_mangle]
pub extern "C-unwind" fn sym_u64(bits: u32) -> u64 {
    let v = TAPE.with(|t| { let mut t = t.borrow_mut(); t.1 += 1; let i = t.1 - 1; t.0.get(i).copied() });
    match v {
        Some(v) if bits >= 64 || v >> bits == 0 => v,
        _ => quit("TAPE too short or too wide".into()),
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_given(_: u64) -> u64 { sym_u64(64) }
#[no_mangle]
pub extern "C-unwind" fn sym_assume(c: bool) { if !c { quit("TAPE assumption not met".into()) } }
#[no_mangle]
pub unsafe extern "C-unwind" fn sym_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        let m = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
        quit(format!("FAIL assertion {m}"))
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_observe(v: u64) { OBS.with(|o| o.borrow_mut().push(v)) }
#[no_mangle]
pub extern "C-unwind" fn sym_cover(_: *const u8, _: usize) {}
#[no_mangle]
pub extern "C-unwind" fn sym_concretize(v: u64) -> u64 { v }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let limit: usize = args.get(2).map_or(usize::MAX, |l| l.parse().unwrap());
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        FAILED.with(|f| { let mut f = f.borrow_mut(); if f.is_none() { *f = Some(format!("FAIL panic {} at {}", m.replace('\n', " "), at)) } });
    }));
    // The library prints; keep that out of the answers.
    
    // One process per line: the library keeps the memory of every index it loads.
    extern "C" { fn fork() -> i32; fn waitpid(p: i32, status: *mut i32, o: i32) -> i32; fn prctl(o: i32, v: u64, a: u64, b: u64, c: u64) -> i32; fn _exit(c: i32) -> !; }
    for line in text.lines() {
        let (child, mut status) = unsafe { (fork(), 0) };
        if child != 0 {
            if child < 0 || unsafe { waitpid(child, &mut status, 0) } != child { println!("TAPE no process"); return }
            match (status & 0x7f, status >> 8 & 0xff) { (0, 0) => continue, (0, 1) => return, (s, c) => std::process::exit(if s != 0 { 128 + s } else { c }) }
        }
        unsafe { prctl(1, 9, 0, 0, 0); } // goes when this process goes
        let mut w = line.split(' ');
        let name = w.next().unwrap();
        let repeat: u32 = w.next().unwrap().parse().unwrap();
        let tape: Vec<u64> = w.next().unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let f = match harness::entry(name) { Some(f) => f, None => { println!("TAPE no entry {name}"); unsafe { _exit(0) } } };
        let mut fail = None;
        for round in 0..repeat {
            TAPE.with(|t| *t.borrow_mut() = (tape.clone(), 0));
            OBS.with(|o| *o.borrow_mut() = vec![]);
            FAILED.with(|f| *f.borrow_mut() = None);
            harness::fresh();
            LIMIT.store(if round == 0 { limit } else { limit.saturating_mul(64) }, Relaxed);
            let r = std::panic::catch_unwind(f);
            LIMIT.store(usize::MAX, Relaxed);
            if r.is_err() {
                fail = Some(FAILED.with(|f| f.borrow_mut().take()).unwrap_or("FAIL panic".into()));
                break;
            }
        }
        match fail {
            Some(m) => {
                println!("\u{1}{m}");
                if m.starts_with("FAIL") { unsafe { _exit(1) } }
            }
            None => {
                let o = OBS.with(|o| o.borrow().iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
                println!("\u{1}OK {o}");
            }
        }
        unsafe { _exit(0) }
    }
}
