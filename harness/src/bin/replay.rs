//! Native replay of one explored path: the harness runs against the real, natively compiled
//! metrix, with the input values the solver found and a virtual clock.
//!   replay HARNESS FILE      FILE: one decimal value per line, in the order they are asked for
//! Exit code 0: every assertion held. 1: an assertion failed (line printed). 101: panic.
//! 3: the path diverged (more values asked for than recorded, or an assumption failed).
use std::io::Write;
use std::sync::Mutex;

static VALUES: Mutex<Vec<u64>> = Mutex::new(Vec::new());
static CLOCK: Mutex<(u64, u64)> = Mutex::new((900, 0));
static OBS: Mutex<Vec<u64>> = Mutex::new(Vec::new());

fn finish(code: i32, msg: &str) -> ! {
    let obs: Vec<String> = OBS.lock().unwrap_or_else(|e| e.into_inner()).iter().map(|v| v.to_string()).collect();
    println!("OBS {}", obs.join(" "));
    println!("{}", msg);
    let _ = std::io::stdout().flush();
    unsafe { _exit(code) }
}
extern "C" {
    fn _exit(c: i32) -> !;
}

#[no_mangle]
pub extern "C" fn sx_nd(w: u32) -> u64 {
    let mut v = VALUES.lock().unwrap();
    match v.pop() {
        Some(x) => {
            if w >= 64 {
                x
            } else {
                x & ((1u64 << w) - 1)
            }
        }
        None => {
            drop(v);
            finish(3, "DIVERGED: no more recorded values")
        }
    }
}
#[no_mangle]
pub extern "C" fn sx_assume(b: bool) {
    if !b {
        finish(3, "DIVERGED: assumption false")
    }
}
#[no_mangle]
pub extern "C" fn sx_assert(b: bool, id: u32) {
    if !b {
        finish(1, &format!("ASSERT {}", id))
    }
}
#[no_mangle]
pub extern "C" fn sx_cover(_id: u32) {}
#[no_mangle]
pub extern "C" fn sx_observe(v: u64) {
    OBS.lock().unwrap().push(v)
}
#[no_mangle]
pub extern "C" fn sx_set_now(s: u64, n: u64) {
    *CLOCK.lock().unwrap() = (s, n);
    *SET_AT.lock().unwrap() = true_clock();
}
std::thread_local! {
    static STAMP: std::cell::Cell<Option<(u64, u64)>> = const { std::cell::Cell::new(None) };
}
#[no_mangle]
pub extern "C" fn sx_stamp(s: u64, n: u64) {
    STAMP.with(|x| x.set(Some((s, n))))
}
#[no_mangle]
pub extern "C" fn sx_preempt(_n: u32) {}
#[no_mangle]
pub extern "C" fn sx_advance(ns: u64) {
    let mut c = CLOCK.lock().unwrap();
    let t = c.1 + ns;
    c.0 += t / 1_000_000_000;
    c.1 = t % 1_000_000_000;
}
#[no_mangle]
pub extern "C" fn sx_concretize(v: u64) -> u64 {
    v
}

/// SX_REALTIME: sleeps are real and time passes really, from what the harness sets the clock to
/// (for harnesses with threads that wait for each other by sleeping)
static REAL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static SET_AT: Mutex<(u64, u64)> = Mutex::new((0, 0));
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
fn real() -> bool {
    REAL.load(std::sync::atomic::Ordering::Relaxed)
}
fn true_clock() -> (u64, u64) {
    let mut t = Timespec { s: 0, n: 0 };
    unsafe { syscall(228, 1i64, &mut t as *mut Timespec) };
    (t.s as u64, t.n as u64)
}

// the virtual clock: std's Instant::now and thread::sleep end up here
#[repr(C)]
pub struct Timespec {
    s: i64,
    n: i64,
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_clk: i32, ts: *mut Timespec) -> i32 {
    let mut c = *CLOCK.lock().unwrap_or_else(|e| e.into_inner());
    if let Ok(Some((s, n))) = STAMP.try_with(|x| x.take()) {
        c = (s, n);
    } else if real() {
        let a = *SET_AT.lock().unwrap_or_else(|e| e.into_inner());
        let b = true_clock();
        let d = (b.0 - a.0) * 1_000_000_000 + b.1 - a.1 + c.1;
        c = (c.0 + d / 1_000_000_000, d % 1_000_000_000);
    }
    (*ts).s = c.0 as i64;
    (*ts).n = c.1 as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, _rem: *mut Timespec) -> i32 {
    if real() {
        return syscall(35, req, _rem) as i32;
    }
    let ns = (*req).s as u64 * 1_000_000_000 + (*req).n as u64;
    sx_advance(ns);
    std::thread::yield_now();
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_c: i32, _f: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    nanosleep(req, rem)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: replay HARNESS FILE");
        std::process::exit(2)
    }
    if std::env::var_os("SX_REALTIME").is_some() {
        *SET_AT.lock().unwrap() = true_clock();
        REAL.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    let mut v: Vec<u64> = std::fs::read_to_string(&a[2])
        .unwrap()
        .lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .map(|l| l.trim().parse().unwrap())
        .collect();
    v.reverse();
    *VALUES.lock().unwrap() = v;
    let h = match hx::HARNESSES.iter().find(|h| h.0 == a[1]) {
        Some(h) => h.1,
        None => {
            eprintln!("no harness {}", a[1]);
            std::process::exit(2)
        }
    };
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        finish(101, &format!("PANIC {} at {}", msg, loc))
    }));
    h();
    finish(0, "OK")
}
