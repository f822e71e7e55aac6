//! Deterministic scheduler for real threads.
//!
//! Exactly one simulated thread runs at a time. Control passes between them only here:
//!  * at scheduling points: every basic block and memory access of instrumented code
//!    (SanitizerCoverage callbacks) while the thread is inside the system under test, and
//!    explicit `point()` calls in harness code;
//!  * where a thread would block: `syscall(SYS_futex, ..)`, the one primitive under every std
//!    lock, condition variable, once-cell and park, is interposed;
//!  * when a thread ends.
//!
//! Which thread goes on is decided by a PRNG (or by a recorded decision list), so that a run is a
//! pure function of (code, seed).
//!
//! Threads that simulated threads start (`pthread_create` is interposed) are simulated as well.
//!
//! This crate is never instrumented.

pub mod clock;
pub mod rng;
pub mod sys;

use rng::Rng;
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};

pub const MAXT: usize = 64;
const NOBODY: u32 = u32::MAX;

thread_local! {
    static TID: Cell<u32> = const { Cell::new(NOBODY) };
    /// Number of the thread of the scenario this one works for.
    static OWNER: Cell<u32> = const { Cell::new(NOBODY) };
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static STEP: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(u64::MAX);
static EVENT: AtomicU64 = AtomicU64::new(0);
static SITE: AtomicU32 = AtomicU32::new(0);
static ARRIVED: AtomicU32 = AtomicU32::new(0);
static DONE: AtomicU32 = AtomicU32::new(0);
static WORDS: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];

// ---------------------------------------------------------------- configuration and results

#[derive(Clone, Debug)]
pub enum Strategy {
    /// Preempt only at explicit points, each with this probability.
    Points(f64),
    /// Preempt after geometrically distributed numbers of scheduling points with this mean.
    Gaps(f64),
    /// PCT: random priorities, lowered at `depth` points among the first `len`.
    Pct { depth: u32, len: u64 },
    /// Never preempt: a thread runs until it blocks or ends; lowest number first.
    Serial,
    /// Follow a recorded decision list, otherwise behave like Serial.
    Replay(Vec<(u64, u8)>),
}

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub strategy: Strategy,
    pub step_limit: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Finished,
    /// No thread can run: every unfinished one waits for another.
    Deadlock,
    /// The step bound was hit.
    StepLimit,
    /// Real time ran out without a scheduling point (a loop outside instrumented code).
    Hung,
}

#[derive(Clone, Debug)]
pub struct RunResult {
    pub end: End,
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub blocked: u64,
    pub woken: u64,
    pub decisions: Vec<(u64, u8)>,
    pub hash: u64,
    pub unfinished: Vec<u8>,
    /// Threads that were started by others and have not ended.
    pub leftover: usize,
}

impl RunResult {
    /// Nothing of the run is left in this process.
    pub fn clean(&self) -> bool {
        self.end == End::Finished && self.leftover == 0
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Runnable,
    /// Lets everyone else go first.
    Stalled,
    Blocked { addr: usize, bits: u32, timed: bool },
    Finished,
}

struct Th {
    status: Status,
    prio: u64,
    order: u64,
    timed_out: bool,
    /// Handle of a thread started by another.
    pthread: usize,
}

struct State {
    rng: Rng,
    /// Threads of the scenario; those started by them follow.
    main: usize,
    strategy: Strategy,
    limit: u64,
    cur: usize,
    th: Vec<Th>,
    decisions: Vec<(u64, u8)>,
    replay_at: usize,
    pct_points: Vec<u64>,
    pct_low: u64,
    order: u64,
    switches: u64,
    preemptions: u64,
    blocked: u64,
    woken: u64,
    hash: u64,
    end: Option<End>,
}

struct Global(UnsafeCell<Option<State>>);
// Only the thread holding the token (or the controller while no simulated thread runs) touches it.
unsafe impl Sync for Global {}
static SIM: Global = Global(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
fn st() -> &'static mut State {
    unsafe { (*SIM.0.get()).as_mut().expect("simulation state") }
}

// ---------------------------------------------------------------- coverage and sancov callbacks

const MAXG: usize = 1 << 20;
static GUARDS: AtomicUsize = AtomicUsize::new(0);
static COV: [AtomicU8; MAXG] = [const { AtomicU8::new(0) }; MAXG];

/// # Safety
/// Called by instrumented modules with their guard table.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = (GUARDS.fetch_add(1, Relaxed) + 1) as u32;
        p = p.add(1);
    }
}

/// # Safety
/// Called by instrumented code.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if IN_LIB.get() {
        let g = *guard;
        SITE.store(g, Relaxed);
        let slot = &COV[g as usize & (MAXG - 1)];
        if slot.load(Relaxed) == 0 {
            slot.store(1, Relaxed);
        }
        tick();
    }
}

macro_rules! mem_cb {
    ($($n:ident),*) => {$(
        #[no_mangle]
        pub extern "C" fn $n(_addr: *const u8) {
            if IN_LIB.get() {
                tick();
            }
        }
    )*};
}
mem_cb!(
    __sanitizer_cov_load1,
    __sanitizer_cov_load2,
    __sanitizer_cov_load4,
    __sanitizer_cov_load8,
    __sanitizer_cov_load16,
    __sanitizer_cov_store1,
    __sanitizer_cov_store2,
    __sanitizer_cov_store4,
    __sanitizer_cov_store8,
    __sanitizer_cov_store16
);

/// (edges of instrumented code run inside the system under test, edges there are)
pub fn coverage() -> (usize, usize) {
    let n = GUARDS.load(Relaxed);
    let hit = COV[..(n + 1).min(MAXG)].iter().filter(|c| c.load(Relaxed) != 0).count();
    (hit, n)
}

// ---------------------------------------------------------------- scheduling points

#[inline]
fn tick() {
    let s = STEP.load(Relaxed) + 1;
    STEP.store(s, Relaxed);
    if s >= NEXT.load(Relaxed) {
        slow(false);
    }
}

/// An explicit scheduling point in harness code (callbacks, operation boundaries, simulated I/O).
pub fn point() {
    if TID.get() == NOBODY || !ACTIVE.load(Relaxed) {
        return;
    }
    let s = STEP.load(Relaxed) + 1;
    STEP.store(s, Relaxed);
    if s >= NEXT.load(Relaxed) {
        slow(true);
    } else if let Strategy::Points(p) = st().strategy {
        if st().rng.chance(p) {
            preempt();
        }
    }
}

#[cold]
fn slow(_explicit: bool) {
    let s = st();
    let step = STEP.load(Relaxed);
    if step >= s.limit {
        stop(End::StepLimit);
        park_forever();
    }
    if step >= s.limit / 4 && !matches!(s.strategy, Strategy::Gaps(_)) {
        // From here on be fair: what only spins must let the others on.
        s.strategy = Strategy::Gaps(5000.0);
    }
    preempt();
}

/// Sets the step at which `slow` runs next.
fn arm() {
    let s = st();
    let step = STEP.load(Relaxed);
    let next = match &s.strategy {
        Strategy::Points(_) | Strategy::Serial => u64::MAX,
        Strategy::Gaps(m) => step + s.rng.gap(*m),
        Strategy::Pct { .. } => s.pct_points.iter().copied().find(|p| *p > step).unwrap_or(u64::MAX),
        Strategy::Replay(d) => d[s.replay_at..].iter().map(|x| x.0).find(|x| *x > step).unwrap_or(u64::MAX),
    };
    let fair = if matches!(s.strategy, Strategy::Gaps(_)) { s.limit } else { (s.limit / 4).max(step + 1) };
    NEXT.store(next.min(fair).min(s.limit), Relaxed);
}

fn runnable(s: &State) -> Vec<usize> {
    let r: Vec<usize> = (0..s.th.len()).filter(|i| s.th[*i].status == Status::Runnable).collect();
    if !r.is_empty() {
        return r;
    }
    // Stalled threads resume only when nobody else can go on.
    (0..s.th.len()).filter(|i| s.th[*i].status == Status::Stalled).min_by_key(|i| s.th[*i].order).into_iter().collect()
}

/// Chooses who runs next; `free` tells whether the current thread could go on.
fn choose(s: &mut State, free: bool) -> Option<usize> {
    let mut r = runnable(s);
    if r.is_empty() {
        // Nobody can run: fire the timed wait that began first, if any.
        let t = (0..s.th.len())
            .filter(|i| matches!(s.th[*i].status, Status::Blocked { timed: true, .. }))
            .min_by_key(|i| s.th[*i].order)?;
        s.th[t].timed_out = true;
        s.th[t].status = Status::Runnable;
        r.push(t);
    }
    let step = STEP.load(Relaxed);
    let t = match &s.strategy {
        Strategy::Points(_) | Strategy::Gaps(_) => r[s.rng.below(r.len() as u64) as usize],
        Strategy::Pct { .. } => {
            if free {
                s.pct_low -= 1;
                let c = s.cur;
                s.th[c].prio = s.pct_low;
            }
            *r.iter().max_by_key(|i| s.th[**i].prio).unwrap()
        }
        Strategy::Serial => {
            if free {
                s.cur
            } else {
                r[0]
            }
        }
        Strategy::Replay(d) => {
            let mut pick = None;
            while s.replay_at < d.len() && d[s.replay_at].0 <= step {
                if d[s.replay_at].0 == step {
                    pick = Some(d[s.replay_at].1 as usize);
                    s.replay_at += 1;
                    break;
                }
                s.replay_at += 1;
            }
            match pick {
                Some(t) if r.contains(&t) => t,
                _ if free => s.cur,
                _ => r[0],
            }
        }
    };
    if s.th[t].status == Status::Stalled {
        s.th[t].status = Status::Runnable;
    }
    Some(t)
}

fn record(s: &mut State, t: usize) {
    let step = STEP.load(Relaxed);
    s.decisions.push((step, t as u8));
    s.switches += 1;
    let site = SITE.load(Relaxed) as u64;
    s.hash = rng::mix(s.hash ^ (site << 8) ^ t as u64);
}

fn preempt() {
    let s = st();
    let me = TID.get() as usize;
    let t = choose(s, true).unwrap_or(me);
    if t != me {
        s.preemptions += 1;
        record(s, t);
        s.cur = t;
        arm();
        wake(t);
        park(me);
    } else {
        arm();
    }
}

/// The current thread cannot go on: hand over for good (until somebody makes it runnable).
fn hand_over(me: usize) {
    let s = st();
    match choose(s, false) {
        Some(t) => {
            if t != me {
                record(s, t);
            }
            s.cur = t;
            arm();
            if t == me {
                return;
            }
            wake(t);
            park(me);
        }
        None => {
            stop(End::Deadlock);
            park_forever();
        }
    }
}

fn wake(t: usize) {
    WORDS[t].store(1, Release);
    sys::futex_wake(&WORDS[t], 1);
}

fn park(me: usize) {
    while WORDS[me].swap(0, Acquire) == 0 {
        sys::futex_wait(&WORDS[me], 0, None);
    }
}

fn park_forever() -> ! {
    loop {
        sys::sleep_forever();
    }
}

fn stop(e: End) {
    st().end = Some(e);
    NEXT.store(u64::MAX, Relaxed);
    DONE.store(1, Release);
    sys::futex_wake(&DONE, 1);
}

// ---------------------------------------------------------------- futex seam

/// Called by the interposed `syscall`. Returns None if this is not a simulated thread.
pub(crate) fn futex(addr: usize, op: i32, val: u32, timed: bool, bits: u32) -> Option<i64> {
    let me = TID.get();
    if me == NOBODY || !ACTIVE.load(Relaxed) {
        return None;
    }
    let me = me as usize;
    const WAIT: i32 = 0;
    const WAKE: i32 = 1;
    const WAIT_BITSET: i32 = 9;
    const WAKE_BITSET: i32 = 10;
    let s = st();
    match op & 0x7f {
        WAIT | WAIT_BITSET => {
            let word = unsafe { &*(addr as *const AtomicU32) };
            if word.load(SeqCst) != val {
                return Some(-(sys::EAGAIN as i64));
            }
            let bits = if op & 0x7f == WAIT { u32::MAX } else { bits };
            s.order += 1;
            s.blocked += 1;
            let was = IN_LIB.replace(false);
            s.th[me].order = s.order;
            s.th[me].timed_out = false;
            s.th[me].status = Status::Blocked { addr, bits, timed };
            hand_over(me);
            IN_LIB.set(was);
            if st().th[me].timed_out {
                return Some(-(sys::ETIMEDOUT as i64));
            }
            Some(0)
        }
        WAKE | WAKE_BITSET => {
            let mask = if op & 0x7f == WAKE { u32::MAX } else { bits };
            let mut w: Vec<usize> = (0..s.th.len())
                .filter(|i| matches!(s.th[*i].status, Status::Blocked { addr: a, bits: b, .. } if a == addr && b & mask != 0))
                .collect();
            w.sort_by_key(|i| s.th[*i].order);
            w.truncate(val as usize);
            for t in &w {
                s.th[*t].status = Status::Runnable;
                s.woken += 1;
            }
            Some(w.len() as i64)
        }
        _ => None,
    }
}

// ---------------------------------------------------------------- harness interface

struct Restore(bool);
impl Drop for Restore {
    fn drop(&mut self) {
        IN_LIB.set(self.0);
    }
}

/// Runs code of the system under test: its basic blocks are scheduling points.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(IN_LIB.replace(TID.get() != NOBODY));
    f()
}

/// Runs harness code called back from the system under test.
pub fn user<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(IN_LIB.replace(false));
    f()
}

/// A fresh number of the global event sequence (a total order of everything observed).
pub fn event() -> u64 {
    let n = EVENT.fetch_add(1, Relaxed) + 1;
    clock::tick();
    n
}

// For hooks that must not be scheduling points themselves.
pub fn simulated() -> bool {
    TID.get() != NOBODY
}
/// The thread of the scenario that this one is, or works for.
pub fn who() -> usize {
    OWNER.get() as usize
}
pub fn step() {
    clock::tick();
    point();
}
/// No scheduling points until `restore`.
pub fn quiet() -> bool {
    IN_LIB.replace(false)
}
pub fn restore(in_lib: bool) {
    IN_LIB.set(in_lib)
}

/// Number of the simulated thread, if this is one.
pub fn tid() -> Option<usize> {
    match TID.get() {
        NOBODY => None,
        t => Some(t as usize),
    }
}

/// Lets every other thread run until each has ended or waits for somebody; returns the threads
/// that are then waiting (empty if all ended or are stalled themselves).
pub fn stall() -> Vec<u8> {
    let me = TID.get();
    if me == NOBODY {
        return Vec::new();
    }
    let me = me as usize;
    let s = st();
    s.order += 1;
    s.th[me].order = s.order;
    s.th[me].status = Status::Stalled;
    let was = IN_LIB.replace(false);
    hand_over(me);
    IN_LIB.set(was);
    let s = st();
    (0..s.th.len())
        .filter(|i| matches!(s.th[*i].status, Status::Blocked { timed: false, .. }))
        .map(|i| i as u8)
        .collect()
}

/// Runs the given closures as simulated threads 0.. until all end, or nobody can go on.
///
/// Threads of a run that did not finish stay parked for the rest of the process.
pub fn run(cfg: &Config, bodies: Vec<Box<dyn FnOnce() + Send>>) -> RunResult {
    let n = bodies.len();
    assert!(n <= MAXT && n > 0);
    let mut rng = Rng::new(cfg.seed);
    let mut pct_points = Vec::new();
    if let Strategy::Pct { depth, len } = &cfg.strategy {
        for _ in 0..*depth {
            pct_points.push(1 + rng.below(*len));
        }
        pct_points.sort();
    }
    let th = (0..n)
        .map(|_| Th { status: Status::Runnable, prio: (1 << 40) + rng.below(1 << 40), order: 0, timed_out: false, pthread: 0 })
        .collect();
    unsafe {
        *SIM.0.get() = Some(State {
            rng,
            main: n,
            strategy: cfg.strategy.clone(),
            limit: cfg.step_limit,
            cur: 0,
            th,
            decisions: Vec::new(),
            replay_at: 0,
            pct_points,
            pct_low: 1 << 30,
            order: 0,
            switches: 0,
            preemptions: 0,
            blocked: 0,
            woken: 0,
            hash: 0x51,
            end: None,
        });
    }
    clock::sleep(STEP.swap(0, SeqCst) * 1000);
    EVENT.store(0, SeqCst);
    SITE.store(0, SeqCst);
    ARRIVED.store(0, SeqCst);
    DONE.store(0, SeqCst);
    NEXT.store(u64::MAX, SeqCst);
    for w in &WORDS {
        w.store(0, SeqCst);
    }
    ACTIVE.store(true, SeqCst);

    let handles: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, body)| {
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    ARRIVED.fetch_add(1, SeqCst);
                    sys::futex_wake(&ARRIVED, 1);
                    park(i);
                    TID.set(i as u32);
                    OWNER.set(i as u32);
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
                    finish(i);
                })
                .expect("thread")
        })
        .collect();
    loop {
        let a = ARRIVED.load(SeqCst);
        if a as usize == n {
            break;
        }
        sys::futex_wait(&ARRIVED, a, None);
    }
    let s = st();
    let first = choose(s, false).expect("a thread");
    record(s, first);
    s.cur = first;
    arm();
    wake(first);

    let mut hung = false;
    while DONE.load(Acquire) == 0 {
        if !sys::futex_wait(&DONE, 0, Some(60)) && DONE.load(Acquire) == 0 {
            hung = true;
            break;
        }
    }
    let s = st();
    let end = if hung { End::Hung } else { s.end.expect("an end") };
    if end == End::Finished {
        for h in handles {
            let _ = h.join();
        }
    } else {
        handles.into_iter().for_each(std::mem::forget);
    }
    ACTIVE.store(false, SeqCst);
    RunResult {
        end,
        steps: STEP.load(SeqCst),
        switches: s.switches,
        preemptions: s.preemptions,
        blocked: s.blocked,
        woken: s.woken,
        decisions: std::mem::take(&mut s.decisions),
        hash: s.hash,
        leftover: s.th[n..].iter().filter(|t| t.status != Status::Finished).count(),
        unfinished: (0..n).filter(|i| s.th[*i].status != Status::Finished).map(|i| i as u8).collect(),
    }
}

/// The current thread has ended.
fn finish(me: usize) {
    TID.set(NOBODY);
    IN_LIB.set(false);
    let s = st();
    s.th[me].status = Status::Finished;
    for t in &mut s.th {
        if matches!(t.status, Status::Blocked { addr, .. } if addr == joining(me)) {
            t.status = Status::Runnable;
        }
    }
    if s.th[..s.main].iter().all(|t| t.status == Status::Finished) {
        stop(End::Finished);
        return;
    }
    match choose(s, false) {
        Some(t) => {
            record(s, t);
            s.cur = t;
            arm();
            wake(t);
        }
        None => stop(End::Deadlock),
    }
}

/// What a thread waits on that waits for the end of another.
fn joining(t: usize) -> usize {
    usize::MAX - t
}

/// Makes room for a thread started by the current one. The place of one that has ended is free: all
/// it does from there on is to leave.
pub(crate) fn adopt() -> Option<(usize, u32)> {
    let s = st();
    let prio = (1 << 40) + s.rng.below(1 << 40);
    // Not before it is there.
    let th = Th { status: Status::Finished, prio, order: 0, timed_out: false, pthread: 0 };
    let id = match (s.main..s.th.len()).find(|t| s.th[*t].status == Status::Finished) {
        Some(id) => {
            s.th[id] = th;
            id
        }
        None if s.th.len() == MAXT => return None,
        None => {
            s.th.push(th);
            s.th.len() - 1
        }
    };
    WORDS[id].store(0, SeqCst);
    Some((id, OWNER.get()))
}

pub(crate) fn adopted(id: usize, pthread: usize) {
    let s = st();
    // A handle that is given out again is of nobody else.
    for t in &mut s.th {
        if t.pthread == pthread {
            t.pthread = 0;
        }
    }
    s.th[id].pthread = pthread;
    s.th[id].status = Status::Runnable;
}

/// Runs in the started thread.
pub(crate) fn started<R>(id: usize, owner: u32, f: impl FnOnce() -> R) -> R {
    park(id);
    TID.set(id as u32);
    OWNER.set(owner);
    IN_LIB.set(true);
    let r = f();
    finish(id);
    r
}

/// Waits for the end of a thread started here, as far as the simulation goes.
pub(crate) fn join(pthread: usize) {
    let me = TID.get() as usize;
    let s = st();
    let Some(t) = (s.main..s.th.len()).find(|t| s.th[*t].pthread == pthread) else { return };
    if s.th[t].status != Status::Finished {
        s.order += 1;
        s.blocked += 1;
        s.th[me].order = s.order;
        s.th[me].timed_out = false;
        s.th[me].status = Status::Blocked { addr: joining(t), bits: u32::MAX, timed: false };
        let was = IN_LIB.replace(false);
        hand_over(me);
        IN_LIB.set(was);
    }
    let t = &mut st().th[t];
    if t.pthread == pthread {
        t.pthread = 0;
    }
}

/// The current thread sleeps or yields: anybody else who can goes on first.
pub(crate) fn nap(ns: u64) {
    clock::sleep(ns);
    let me = TID.get() as usize;
    STEP.fetch_add(1, Relaxed);
    if STEP.load(Relaxed) >= st().limit {
        stop(End::StepLimit);
        park_forever();
    }
    let s = st();
    s.order += 1;
    s.th[me].order = s.order;
    s.th[me].status = Status::Stalled;
    let was = IN_LIB.replace(false);
    hand_over(me);
    IN_LIB.set(was);
}
