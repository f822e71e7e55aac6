//! A simulated file system under the C library's file functions, with injected faults.

#![allow(suspicious_runtime_symbol_definitions, invalid_runtime_symbol_definitions, clippy::missing_safety_doc)]

pub mod calls;
pub mod model;

pub use model::{Act, Fault, Fs, Op, Spec};

use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

/// What the simulator around the file system provides.
pub struct Host {
    /// The calling thread sees the simulated file system.
    pub active: fn() -> bool,
    /// Before every operation: a scheduling point.
    pub point: fn(),
    /// Who is asking.
    pub who: fn() -> usize,
    /// After every operation.
    pub logged: fn(&Fs, &Op),
    /// Standard output and error are simulated too.
    pub stdio: bool,
}

struct Cell(UnsafeCell<Option<(Host, Fs)>>);
unsafe impl Sync for Cell {}
static STATE: Cell = Cell(UnsafeCell::new(None));
static LOCK: AtomicBool = AtomicBool::new(false);

/// Puts a file system in place.
pub fn install(host: Host, fs: Fs) {
    locked(|s| *s = Some((host, fs)));
}

/// Takes the file system away.
pub fn remove() -> Option<Fs> {
    locked(|s| s.take()).map(|(_, fs)| fs)
}

/// Keeps the code in here free of scheduling points, whoever compiled it.
#[derive(Clone, Copy)]
pub struct Quiet {
    pub enter: fn() -> bool,
    pub leave: fn(bool),
}
static QUIET: std::sync::OnceLock<Quiet> = std::sync::OnceLock::new();

pub fn quiet_with(q: Quiet) {
    let _ = QUIET.set(q);
}

fn locked<R>(f: impl FnOnce(&mut Option<(Host, Fs)>) -> R) -> R {
    let quiet = QUIET.get().map(|q| ((q.enter)(), q.leave));
    let r = locked_quietly(f);
    if let Some((was, leave)) = quiet {
        leave(was);
    }
    r
}

fn locked_quietly<R>(f: impl FnOnce(&mut Option<(Host, Fs)>) -> R) -> R {
    while LOCK.swap(true, SeqCst) {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *STATE.0.get() });
    LOCK.store(false, SeqCst);
    r
}

/// The file system in place, if the caller is inside the simulation.
pub fn with<R>(f: impl FnOnce(&Host, &mut Fs) -> R) -> Option<R> {
    locked(|s| match s {
        Some((h, fs)) if (h.active)() => Some(f(h, fs)),
        _ => None,
    })
}

/// The file system in place, whoever asks.
pub fn inspect<R>(f: impl FnOnce(&mut Fs) -> R) -> Option<R> {
    locked(|s| s.as_mut().map(|(_, fs)| f(fs)))
}

fn active() -> bool {
    locked(|s| s.as_ref().is_some_and(|(h, _)| (h.active)()))
}

fn point() {
    if let Some(p) = locked(|s| s.as_ref().map(|(h, _)| h.point)) {
        p()
    }
}

pub fn not_logged(_: &Fs, _: &Op) {}
