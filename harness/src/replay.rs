//! Native replay of a harness on concrete inputs.
//!
//! replay --list | replay HARNESS WIDTH:VALUE,WIDTH:VALUE,...
//! Exit: 0 ran to the end (or panicked where the harness allows it), 10 a check failed,
//! 11 a panic, 12 an over-large allocation, 77 an assumption does not hold, 78 inputs exhausted.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

struct Counting;
static MAX_ALLOC: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
fn note(n: usize) {
    if n > CAP.load(SeqCst) {
        CAP.store(usize::MAX, SeqCst);
        println!("ALLOC {}", n);
        std::process::exit(12);
    }
    MAX_ALLOC.fetch_max(n, SeqCst);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

struct St {
    inputs: Vec<(u32, u64)>,
    pos: usize,
    covers: Vec<String>,
    checks: u32,
    failed: Vec<String>,
    panic_ok: bool,
}
struct Cell(UnsafeCell<Option<St>>);
unsafe impl Sync for Cell {}
static ST: Cell = Cell(UnsafeCell::new(None));
static DONE: AtomicBool = AtomicBool::new(false);
#[allow(clippy::mut_from_ref)]
fn st() -> &'static mut St {
    unsafe { (*ST.0.get()).as_mut().unwrap() }
}

fn finish(code: i32, panicked: bool) -> ! {
    CAP.store(usize::MAX, SeqCst);
    if DONE.swap(true, SeqCst) {
        std::process::exit(11);
    }
    let s = st();
    println!("COVERS {}", s.covers.join("\u{1}"));
    println!("CHECKS {}", s.checks);
    println!("PANICKED {}", panicked);
    for f in &s.failed {
        println!("FAILED {}", f);
    }
    let code = if s.failed.is_empty() || code == 77 || code == 78 { code } else { 10 };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

#[no_mangle]
extern "C" fn __sym_int(bytes: u32) -> u64 {
    let s = st();
    match s.inputs.get(s.pos) {
        Some(&(w, v)) => {
            s.pos += 1;
            if w != bytes * 8 {
                println!("WIDTH mismatch at input {}: {} vs {}", s.pos - 1, w, bytes * 8);
                finish(78, false)
            }
            v
        }
        None => finish(78, false),
    }
}
#[no_mangle]
extern "C" fn __sym_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn __sym_pick(v: u64, lo: u64, hi: u64) -> u64 {
    if v < lo || v > hi {
        finish(77, false)
    }
    v
}
#[no_mangle]
extern "C" fn __sym_assume(c: bool) {
    if !c {
        finish(77, false)
    }
}
unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
#[no_mangle]
unsafe extern "C" fn __sym_check(c: bool, p: *const u8, n: usize) {
    let s = st();
    s.checks += 1;
    if !c {
        s.failed.push(text(p, n));
        // the engine continues past a failed check only under the assumption that it holds
        finish(10, false)
    }
}
#[no_mangle]
unsafe extern "C" fn __sym_cover(p: *const u8, n: usize) {
    let t = text(p, n);
    if !st().covers.contains(&t) {
        st().covers.push(t)
    }
}
#[no_mangle]
extern "C" fn __sym_panic_ok(on: bool) {
    st().panic_ok = on
}

extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn lseek(fd: i32, off: i64, whence: i32) -> i64;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn ftruncate(fd: i32, n: i64) -> i32;
}
/// From here on standard error is kept for `__sym_heard`.
#[no_mangle]
unsafe extern "C" fn __sym_listen() {
    let fd = memfd_create(b"stderr\0".as_ptr(), 0);
    if fd < 0 || dup2(fd, 2) != 2 {
        println!("cannot listen to standard error");
        std::process::exit(3)
    }
}
/// What was printed to standard error since the last call, as far as it fits.
#[no_mangle]
unsafe extern "C" fn __sym_heard(buf: *mut u8, cap: usize) -> usize {
    lseek(2, 0, 0);
    let mut n = 0;
    while n < cap {
        let k = read(2, buf.add(n), cap - n);
        if k <= 0 {
            break;
        }
        n += k as usize
    }
    ftruncate(2, 0);
    lseek(2, 0, 0);
    n
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "--list").unwrap_or(true) {
        for (n, _) in tdm_harness::all() {
            println!("{}", n)
        }
        return;
    }
    let f = match tdm_harness::all().into_iter().find(|(n, _)| *n == a[1]) {
        Some((_, f)) => f,
        None => {
            println!("no harness {}", a[1]);
            std::process::exit(2)
        }
    };
    let inputs = a
        .get(2)
        .map(|s| {
            s.split(',')
                .filter(|x| !x.is_empty())
                .map(|x| {
                    let (w, v) = x.split_once(':').expect("WIDTH:VALUE");
                    (w.parse().unwrap(), v.parse().unwrap())
                })
                .collect()
        })
        .unwrap_or_default();
    unsafe { *ST.0.get() = Some(St { inputs, pos: 0, covers: vec![], checks: 0, failed: vec![], panic_ok: false }) };
    std::panic::set_hook(Box::new(|i| {
        CAP.store(usize::MAX, SeqCst);
        if st().panic_ok {
            finish(0, true)
        }
        println!("PANIC {}", i);
        finish(11, true)
    }));
    if std::env::var_os("TDM_ALLOC_CAP").is_some() {
        CAP.store(1 << 14, SeqCst);
    }
    f();
    finish(0, false)
}
