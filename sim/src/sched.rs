//! The thread scheduler. Simulated caller threads are real threads of which exactly one runs at
//! any time: the baton is handed over only where the simulator decides, which is possible at
//! every control-flow edge and atomic operation of the library (compiler inserted callbacks), at every intercepted
//! system call that would block, and at explicit operation boundaries.

use crate::cov;
use crate::seam::{raw, CTX};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

/// One slice: which of the runnable threads goes next (taken modulo) and for how many edges.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Slice(pub u8, pub u32);

struct Sched {
    slices: Vec<Slice>,
    pos: usize,
    done: Vec<bool>,
    blocked_in_a_row: u32,
    switches: u64,
    watched: u64,
    /// state of the generator that decides about preemption at atomic operations, and one in how
    /// many is taken (0: none)
    atomic: (u64, u32),
}

const MAX_WATCHED: u64 = 4000;

static mut S: Option<Sched> = None;
static CUR: AtomicU32 = AtomicU32::new(0);
pub static mut ON: bool = false;
pub static mut LEFT: u32 = 0;

thread_local! { static ME: Cell<u32> = const { Cell::new(0) }; }

pub fn on_sim_thread() -> bool {
    ME.with(|m| m.get()) != 0
}

fn futex_wait(v: u32) {
    unsafe {
        raw(202, &CUR as *const _ as usize, 128, v as usize, 0, 0, 0);
    }
}
fn futex_wake() {
    unsafe {
        raw(202, &CUR as *const _ as usize, 129, i32::MAX as usize, 0, 0, 0);
    }
}

fn wait_for_baton(me: u32) {
    loop {
        let c = CUR.load(SeqCst);
        if c == me {
            return;
        }
        futex_wait(c);
    }
}

fn pass(to: u32) {
    unsafe { cov::INSIDE = false };
    CUR.store(to, SeqCst);
    futex_wake();
}

#[allow(static_mut_refs)]
unsafe fn next(avoid: Option<u32>) -> u32 {
    let s = S.as_mut().unwrap();
    let mut runnable: Vec<u32> = (0..s.done.len() as u32)
        .filter(|i| !s.done[*i as usize])
        .map(|i| i + 1)
        .collect();
    if runnable.is_empty() {
        return 0;
    }
    if runnable.len() > 1 {
        if let Some(a) = avoid {
            runnable.retain(|r| *r != a);
        }
    }
    // (after the last slice: whoever waits lets any of the others go on, so that none starves)
    let any = ((s.pos as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as u8;
    let slice = s.slices.get(s.pos).copied().unwrap_or(Slice(
        if avoid.is_some() { any } else { 0 },
        if avoid.is_some() { 50 } else { u32::MAX },
    ));
    s.pos += 1;
    LEFT = slice.1.max(1);
    runnable[slice.0 as usize % runnable.len()]
}

/// Called on the running thread when its slice is used up.
#[allow(static_mut_refs)]
pub fn switch() {
    let me = ME.with(|m| m.get());
    if me == 0 {
        return;
    }
    unsafe {
        cov::INSIDE = true;
        let n = next(None);
        S.as_mut().unwrap().blocked_in_a_row = 0;
        if n != me {
            S.as_mut().unwrap().switches += 1;
            pass(n);
            wait_for_baton(me);
        }
        cov::INSIDE = false;
    }
}

/// The running thread has come to a watched edge: any other thread goes on.
#[allow(static_mut_refs)]
pub fn watched() {
    let me = ME.with(|m| m.get());
    if me == 0 {
        return;
    }
    unsafe {
        let s = S.as_mut().unwrap();
        if s.watched >= MAX_WATCHED {
            return;
        }
        s.watched += 1;
        s.blocked_in_a_row = 0;
        cov::INSIDE = true;
        let others: Vec<u32> = (1..=s.done.len() as u32).filter(|i| *i != me && !s.done[*i as usize - 1]).collect();
        if !others.is_empty() {
            s.switches += 1;
            let n = others[s.watched as usize % others.len()];
            pass(n);
            wait_for_baton(me);
        }
        cov::INSIDE = false;
    }
}

/// The running thread is about to perform an atomic operation.
#[allow(static_mut_refs)]
pub fn atomic() {
    unsafe {
        let Some(s) = S.as_mut() else { return };
        if s.atomic.1 == 0 || !on_sim_thread() {
            return;
        }
        let x = &mut s.atomic.0;
        *x ^= *x << 13;
        *x ^= *x >> 7;
        *x ^= *x << 17;
        if (*x >> 11) % u64::from(s.atomic.1) == 0 {
            watched();
        }
    }
}

/// The running thread waits for something another thread has to do.
#[allow(static_mut_refs)]
pub fn blocked() {
    let me = ME.with(|m| m.get());
    unsafe {
        cov::INSIDE = true;
        let s = S.as_mut().unwrap();
        s.blocked_in_a_row += 1;
        if s.blocked_in_a_row > 100_000 {
            cov::die(cov::DEADLOCK);
        }
        let n = next(Some(me));
        if n != me {
            s.switches += 1;
            pass(n);
            wait_for_baton(me);
        }
        cov::INSIDE = false;
    }
}

/// Explicit scheduling point (operation boundary of a simulated client).
pub fn point() {
    if on_sim_thread() {
        unsafe {
            if LEFT <= 1 {
                switch();
            } else {
                LEFT -= 1;
            }
        }
    }
}

/// Runs the given clients under the given schedule; returns the panic message of each that
/// panicked, and the number of context switches.
#[allow(static_mut_refs)]
pub fn run<'a>(
    slices: &[Slice],
    watch: &[u32],
    atomic: (u32, u32),
    jobs: Vec<Box<dyn FnOnce() + Send + 'a>>,
) -> (Vec<Option<String>>, u64) {
    let n = jobs.len();
    let ctx = CTX.with(|c| c.get()) as usize;
    unsafe {
        S = Some(Sched {
            slices: slices.to_vec(),
            pos: 0,
            done: vec![false; n],
            blocked_in_a_row: 0,
            switches: 0,
            watched: 0,
            atomic: (u64::from(atomic.0) | 1 << 40, atomic.1),
        });
        for e in watch {
            cov::WATCH[*e as usize] = true;
        }
    }
    CUR.store(u32::MAX, SeqCst);
    let out = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .into_iter()
            .enumerate()
            .map(|(i, j)| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let me = i as u32 + 1;
                        wait_for_baton(me);
                        ME.with(|m| m.set(me));
                        CTX.with(|c| c.set(ctx as *mut _));
                        cov::MINE.with(|m| m.set(true));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j));
                        CTX.with(|c| c.set(std::ptr::null_mut()));
                        ME.with(|m| m.set(0));
                        let died = r.err().map(|_| cov::last_panic());
                        unsafe {
                            cov::INSIDE = true;
                            S.as_mut().unwrap().done[i] = true;
                            let n = next(None);
                            if n == 0 {
                                ON = false;
                            }
                            pass(n);
                        }
                        died
                    })
                    .unwrap()
            })
            .collect();
        unsafe {
            ON = true;
            let first = next(None);
            pass(first);
        }
        hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
    });
    unsafe {
        ON = false;
        let sw = S.as_ref().unwrap().switches;
        S = None;
        (out, sw)
    }
}
