//! The simulated clocks.
//!
//! Time passes by a microsecond per scheduling point, by what simulated threads sleep, and by jumps: at
//! recorded events a plan derived from the case's clock seed lets both clocks leap forward (a stalled
//! or suspended process) or sets the wall clock to some other time, earlier ones included.

use crate::rng::mix;
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};

static CLOCK: AtomicU64 = AtomicU64::new(0);
static SKEW: AtomicI64 = AtomicI64::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
static LEAPS: AtomicU64 = AtomicU64::new(0);
static SETS: AtomicU64 = AtomicU64::new(0);
static READ: AtomicU64 = AtomicU64::new(0);
static TICKS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static HERE: Cell<bool> = const { Cell::new(false) };
}

const MS: u64 = 1_000_000;
const LEAP: [u64; 8] = [
    MS,
    150 * MS,
    1_100 * MS,
    11_000 * MS,
    61_000 * MS,
    3_601_000 * MS,
    86_401_000 * MS,
    35_000_000_000 * MS,
];

#[derive(Clone, Copy, Debug, Default)]
pub struct Report {
    /// Simulated nanoseconds.
    pub passed: u64,
    pub leaps: u64,
    pub wall_sets: u64,
    /// How often somebody asked for the time.
    pub reads: u64,
}

/// The calling thread and all simulated threads are on simulated time from now on, until `stop`.
/// Seed 0: nothing jumps.
pub fn start(seed: u64) {
    for a in [&CLOCK, &LEAPS, &SETS, &READ, &TICKS] {
        a.store(0, SeqCst);
    }
    SKEW.store(0, SeqCst);
    SEED.store(seed, SeqCst);
    crate::STEP.store(0, SeqCst);
    HERE.set(true);
}

pub fn stop() -> Report {
    HERE.set(false);
    SEED.store(0, SeqCst);
    Report {
        passed: CLOCK.load(SeqCst) + crate::STEP.load(SeqCst) * 1000,
        leaps: LEAPS.load(SeqCst),
        wall_sets: SETS.load(SeqCst),
        reads: READ.load(SeqCst),
    }
}

pub(crate) fn here() -> bool {
    HERE.get() || crate::simulated()
}

/// Time that passed for somebody else.
pub fn pass(ns: u64) {
    sleep(ns);
}

pub(crate) fn sleep(ns: u64) {
    CLOCK.fetch_add(ns, Relaxed);
}

/// Called at every recorded event and system call.
pub(crate) fn tick() {
    let seed = SEED.load(Relaxed);
    if seed == 0 {
        return;
    }
    let n = TICKS.fetch_add(1, Relaxed) + 1;
    let h = mix(seed ^ mix(n));
    // How often: at one event in 32, 8 or 2.
    if h % [32, 8, 2][(seed % 3) as usize] != 0 {
        return;
    }
    let size = LEAP[(h >> 32) as usize % LEAP.len()];
    if (h >> 16) % 4 != 0 {
        // Not beyond some decades.
        if CLOCK.load(Relaxed) < 1 << 60 {
            CLOCK.fetch_add(size, Relaxed);
        }
        LEAPS.fetch_add(1, Relaxed);
    } else {
        let back = (h >> 24) % 2 == 0;
        let _ = SKEW.fetch_update(Relaxed, Relaxed, |s| {
            let n = if back { s - size as i64 } else { s + size as i64 };
            (n.abs() < 1_000_000_000_000_000_000).then_some(n)
        });
        SETS.fetch_add(1, Relaxed);
    }
}

/// The steady clock, in nanoseconds.
pub fn now() -> u64 {
    1_000_000_000_000_000 + CLOCK.load(Relaxed) + crate::STEP.load(Relaxed) * 1000
}

/// Of clock_gettime: the wall clocks can be set.
pub(crate) fn read(clock: i32) -> u64 {
    READ.fetch_add(1, Relaxed);
    match clock {
        0 | 5 | 11 => (1_700_000_000_000_000_000 + now() as i64 + SKEW.load(Relaxed)) as u64,
        _ => now(),
    }
}
