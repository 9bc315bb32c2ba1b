//! Control-flow edges of the library (callbacks the compiler inserts: sancov), simulated
//! processes ("incarnations"), and their step budget.

use crate::seam::{raw, Ctx, CTX};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::sync::atomic::{AtomicU32, Ordering};

pub const HANG: u32 = 1;
pub const DEADLOCK: u32 = 2;
const OK: u32 = 10;
const PANIC: u32 = 11;

const HDR: usize = 4096;
const MAPSZ: usize = 1 << 20;
const REGION: usize = 256 << 20;

#[repr(C)]
struct Header {
    status: u32,
    len: u64,
    steps: u64,
    hash: u64,
}

static NGUARDS: AtomicU32 = AtomicU32::new(0);
static mut ACTIVE: bool = false;
static mut SHM: *mut u8 = std::ptr::null_mut();
static mut LIMIT: u64 = u64::MAX;
static mut PANIC_MSG: String = String::new();

pub fn guards() -> usize {
    NGUARDS.load(Ordering::Relaxed) as usize
}

unsafe fn hdr() -> *mut Header {
    SHM as *mut Header
}
unsafe fn map() -> *mut u8 {
    SHM.add(HDR)
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
    while s < e {
        if *s == 0 {
            *s = NGUARDS.fetch_add(1, Ordering::Relaxed) + 1;
        }
        s = s.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE || !MINE.with(|m| m.get()) {
        return;
    }
    let id = *g as usize;
    if id < MAPSZ {
        let m = map().add(id);
        *m = (*m).saturating_add(1);
    }
    let h = hdr();
    (*h).steps += 1;
    (*h).hash = ((*h).hash.rotate_left(5) ^ id as u64).wrapping_mul(0x9E3779B97F4A7C15);
    if (*h).steps > LIMIT {
        die(HANG);
    }
    if crate::sched::ON && !INSIDE {
        crate::sched::LEFT = crate::sched::LEFT.wrapping_sub(1);
        if crate::sched::LEFT == 0 {
            crate::sched::switch();
        } else if id < MAPSZ && WATCH[id] {
            crate::sched::watched();
        }
    }
}

/// The library is about to perform an atomic operation.
pub unsafe fn atomic() {
    if !ACTIVE || !MINE.with(|m| m.get()) {
        return;
    }
    let h = hdr();
    (*h).steps += 1;
    (*h).hash = ((*h).hash.rotate_left(5) ^ 0x517c_c1b7).wrapping_mul(0x9E3779B97F4A7C15);
    if (*h).steps > LIMIT {
        die(HANG);
    }
    if crate::sched::ON && !INSIDE {
        crate::sched::atomic();
    }
}

thread_local! {
    /// whether this is a thread of the simulation (and none the library started by itself)
    pub static MINE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// The running thread is inside of the simulator (which may share compiled code with the library):
/// never preempted there.
pub static mut INSIDE: bool = false;

/// edges at which the running thread is always preempted
pub static mut WATCH: [bool; MAPSZ] = [false; MAPSZ];

/// the edges the last simulated process went over
pub fn last_edges() -> Vec<u32> {
    unsafe {
        let m = std::slice::from_raw_parts(map(), guards() + 1);
        (0..m.len()).filter(|i| m[*i] > 0).map(|i| i as u32).collect()
    }
}

pub unsafe fn die(why: u32) -> ! {
    (*hdr()).status = why;
    raw(231, 77, 0, 0, 0, 0, 0);
    std::process::abort()
}

/// steps (edges) executed so far in this incarnation
pub fn steps() -> u64 {
    unsafe { (*hdr()).steps }
}

#[allow(static_mut_refs)]
pub fn last_panic() -> String {
    unsafe { PANIC_MSG.clone() }
}

pub fn init() {
    extern "C" {
        fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    }
    unsafe {
        // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE
        SHM = mmap(std::ptr::null_mut(), REGION, 3, 0x4021, -1, 0);
        assert!(SHM as isize != -1);
    }
    std::panic::set_hook(Box::new(|i| {
        let inside = unsafe { std::mem::replace(&mut INSIDE, true) };
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if unsafe { !ACTIVE } {
            eprintln!("harness panic: {msg} at {loc}");
        }
        unsafe { PANIC_MSG = format!("{msg} at {loc}") };
        drop((msg, loc));
        unsafe { INSIDE = inside };
    }));
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Death {
    Panic(String),
    Hang,
    Deadlock,
    Signal(i32),
    Exit(i32),
}

impl std::fmt::Display for Death {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Death::Panic(m) => write!(f, "panicked: {m}"),
            Death::Hang => write!(f, "did not finish within the step budget (hang)"),
            Death::Deadlock => write!(f, "deadlock: every thread waits"),
            Death::Signal(s) => write!(f, "killed by signal {s}"),
            Death::Exit(c) => write!(f, "exited with code {c}"),
        }
    }
}

impl Death {
    pub fn class(&self) -> String {
        match self {
            Death::Panic(_) => "panic",
            Death::Hang => "hang",
            Death::Deadlock => "deadlock",
            Death::Signal(_) => "signal",
            Death::Exit(_) => "exit",
        }
        .into()
    }
}

/// What a run touched, accumulated over its incarnations.
#[derive(Default, Clone)]
pub struct Reach {
    pub steps: u64,
    pub trace_hash: u64,
    pub map: Vec<u8>,
    pub incarnations: u64,
}

pub static mut REACH: Option<Reach> = None;

#[allow(static_mut_refs)]
pub fn reach() -> &'static mut Reach {
    unsafe { REACH.get_or_insert_with(Reach::default) }
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn setrlimit(r: i32, l: *const u64) -> i32;
    fn alarm(s: u32) -> u32;
}

pub const STEP_BUDGET: u64 = 400_000_000;

/// Runs `f` as one simulated process: a forked, pristine copy in which the library has never run,
/// on a fresh thread, with the given context behind the seams. The context comes back with the
/// disk, clock and entropy as the process left them (also if it died).
pub fn process<T: Serialize + DeserializeOwned + Send>(
    ctx: &mut Ctx,
    budget: u64,
    f: impl FnOnce() -> T + Send,
) -> Result<T, Death> {
    unsafe {
        std::ptr::write_bytes(SHM, 0, HDR + guards() + 64);
        let pid = fork();
        if pid == 0 {
            child(ctx, budget, f);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        let h = &*hdr();
        let r = reach();
        r.steps += h.steps;
        r.incarnations += 1;
        r.trace_hash = (r.trace_hash.rotate_left(7) ^ h.hash).wrapping_mul(0x9E3779B97F4A7C15);
        let n = guards() + 1;
        if r.map.len() < n {
            r.map.resize(n, 0);
        }
        let m = std::slice::from_raw_parts(map(), n);
        for i in 0..n {
            r.map[i] = r.map[i].saturating_add(m[i]);
        }
        if st & 0x7f != 0 {
            let sig = st & 0x7f;
            return Err(if sig == 14 { Death::Hang } else { Death::Signal(sig) });
        }
        match h.status {
            HANG => return Err(Death::Hang),
            DEADLOCK => return Err(Death::Deadlock),
            OK | PANIC => {}
            _ => return Err(Death::Exit(st >> 8 & 0xff)),
        }
        let data = std::slice::from_raw_parts(SHM.add(HDR + MAPSZ), h.len as usize);
        if h.status == OK {
            let (t, c): (T, Ctx) = serde_json::from_slice(data).expect("result of the process");
            *ctx = c;
            Ok(t)
        } else {
            let (t, c): (String, Ctx) = serde_json::from_slice(data).expect("result");
            *ctx = c;
            Err(Death::Panic(t))
        }
    }
}

unsafe fn child<T: Serialize + Send>(ctx: &mut Ctx, budget: u64, f: impl FnOnce() -> T + Send) -> ! {
    let lim: [u64; 2] = [3 << 30, 3 << 30];
    setrlimit(9, lim.as_ptr());
    let nocore: [u64; 2] = [0, 0];
    setrlimit(4, nocore.as_ptr());
    alarm(120);
    LIMIT = budget;
    let p = ctx as *mut Ctx as usize;
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, move || {
                CTX.with(|c| c.set(p as *mut Ctx));
                MINE.with(|m| m.set(true));
                ACTIVE = true;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                ACTIVE = false;
                CTX.with(|c| c.set(std::ptr::null_mut()));
                r
            })
            .unwrap()
            .join()
    });
    let (bytes, st) = match r {
        Ok(Ok(t)) => (serde_json::to_vec(&(t, &*ctx)).unwrap(), OK),
        _ => (serde_json::to_vec(&(last_panic(), &*ctx)).unwrap(), PANIC),
    };
    if bytes.len() > REGION - HDR - MAPSZ {
        die(99);
    }
    std::ptr::copy_nonoverlapping(bytes.as_ptr(), SHM.add(HDR + MAPSZ), bytes.len());
    (*hdr()).len = bytes.len() as u64;
    (*hdr()).status = st;
    raw(231, 0, 0, 0, 0, 0, 0);
    std::process::abort()
}

/// Runs the closure with the edge callbacks (steps, preemption) suspended; used by oracles that
/// run inside of an incarnation.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        let a = ACTIVE;
        ACTIVE = false;
        let r = f();
        ACTIVE = a;
        r
    }
}
