//! Raw system calls, and the interposed `syscall` under std's locks.

use std::sync::atomic::AtomicU32;

pub const EAGAIN: i32 = 11;
pub const ETIMEDOUT: i32 = 110;
const SYS_FUTEX: i64 = 202;
const SYS_PAUSE: i64 = 34;
const PRIVATE: usize = 128;

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

/// # Safety
/// As the system call.
#[inline]
pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

/// Waits while the word holds `val`; false on timeout (seconds).
pub fn futex_wait(word: &AtomicU32, val: u32, secs: Option<i64>) -> bool {
    let ts = Timespec { sec: secs.unwrap_or(0), nsec: 0 };
    let p = if secs.is_some() { &ts as *const _ as usize } else { 0 };
    let r = unsafe { raw(SYS_FUTEX, word as *const _ as usize, PRIVATE, val as usize, p, 0, 0) };
    r != -(ETIMEDOUT as i64)
}

pub fn futex_wake(word: &AtomicU32, n: u32) {
    unsafe { raw(SYS_FUTEX, word as *const _ as usize, 1 | PRIVATE, n as usize, 0, 0, 0) };
}

pub fn sleep_forever() {
    unsafe { raw(SYS_PAUSE, 0, 0, 0, 0, 0, 0) };
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e };
}

fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

/// # Safety
/// As syscall(2). std's locks reach the kernel only through this symbol.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == SYS_FUTEX {
        if let Some(r) = crate::futex(a, b as i32, c as u32, d != 0, f as u32) {
            return ret(r);
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- threads

type Start = extern "C" fn(usize) -> usize;
type Create = unsafe extern "C" fn(*mut usize, usize, Start, usize) -> i32;
type Join = unsafe extern "C" fn(usize, *mut usize) -> i32;

extern "C" {
    fn dlsym(handle: usize, name: *const i8) -> usize;
}
const RTLD_NEXT: usize = usize::MAX;

struct Birth {
    id: usize,
    owner: u32,
    start: Start,
    arg: usize,
}

extern "C" fn born(b: usize) -> usize {
    let b = unsafe { Box::from_raw(b as *mut Birth) };
    crate::started(b.id, b.owner, || (b.start)(b.arg))
}

/// # Safety
/// As pthread_create(3).
#[no_mangle]
pub unsafe extern "C" fn pthread_create(thread: *mut usize, attr: usize, start: Start, arg: usize) -> i32 {
    let real: Create = std::mem::transmute(dlsym(RTLD_NEXT, c"pthread_create".as_ptr()));
    if crate::tid().is_none() {
        return real(thread, attr, start, arg);
    }
    let Some((id, owner)) = crate::adopt() else { return EAGAIN };
    let b = Box::into_raw(Box::new(Birth { id, owner, start, arg }));
    let r = real(thread, attr, born, b as usize);
    if r == 0 {
        crate::adopted(id, *thread);
    } else {
        drop(Box::from_raw(b));
    }
    r
}

/// # Safety
/// As pthread_join(3).
#[no_mangle]
pub unsafe extern "C" fn pthread_join(thread: usize, out: *mut usize) -> i32 {
    if crate::tid().is_some() {
        crate::join(thread);
    }
    let real: Join = std::mem::transmute(dlsym(RTLD_NEXT, c"pthread_join".as_ptr()));
    real(thread, out)
}

// ---------------------------------------------------------------- time, sleep and randomness

/// Yielding and sleeping let others run; sleeping moves the simulated clock.
#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    if crate::tid().is_some() {
        crate::nap(0);
    }
    0
}

#[no_mangle]
extern "C" fn nanosleep(req: *const Timespec, _rem: *mut Timespec) -> i32 {
    let d = unsafe { (*req).sec * 1_000_000_000 + (*req).nsec };
    if crate::tid().is_some() {
        crate::nap(d as u64);
        return 0;
    }
    ret(unsafe { raw(35, req as usize, 0, 0, 0, 0, 0) }) as i32
}

#[no_mangle]
extern "C" fn clock_nanosleep(clock: i32, flags: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if crate::tid().is_some() {
        let mut d = unsafe { (*req).sec * 1_000_000_000 + (*req).nsec };
        if flags & 1 != 0 {
            d -= crate::clock::read(clock) as i64;
        }
        crate::nap(d.max(0) as u64);
        return 0;
    }
    -(unsafe { raw(230, clock as usize, flags as usize, req as usize, rem as usize, 0, 0) }) as i32
}

#[no_mangle]
extern "C" fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32 {
    if crate::clock::here() {
        let t = crate::clock::read(clock) as i64;
        unsafe { *ts = Timespec { sec: t / 1_000_000_000, nsec: t % 1_000_000_000 } };
        return 0;
    }
    ret(unsafe { raw(228, clock as usize, ts as usize, 0, 0, 0, 0) }) as i32
}

/// Randomised hash maps inside the code under test hash alike in every run.
///
/// # Safety
/// As getrandom(2).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if crate::tid().is_some() {
        for i in 0..len {
            *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
        }
        return len as isize;
    }
    ret(raw(318, buf as usize, len, flags as usize, 0, 0, 0)) as isize
}
