//! Puts a process on a simulated file system and terminal, described and reported in shared memory.

#![allow(suspicious_runtime_symbol_definitions, invalid_runtime_symbol_definitions)]

use simfs::{Fs, Host, Op, Spec};
use std::sync::atomic::{AtomicPtr, Ordering::SeqCst};

pub const SIZE: usize = 4 << 20;
/// Header words: 0 ready, 1 spec length, 2 log, 3 snapshot, 4 snapshot after power loss, 5 stdout,
/// 6 stderr, 7 mutations, 8 overflow.
const AREAS: [(usize, usize); 9] = [
    (0, 0),
    (4096, 512 << 10),
    (600 << 10, 1 << 20),
    (1700 << 10, 512 << 10),
    (2300 << 10, 512 << 10),
    (2900 << 10, 256 << 10),
    (3200 << 10, 256 << 10),
    (0, 0),
    (0, 0),
];

static MEM: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

fn head(i: usize) -> &'static mut u64 {
    unsafe { &mut *(MEM.load(SeqCst) as *mut u64).add(i) }
}

fn put(i: usize, at: usize, b: &[u8]) {
    let (start, room) = AREAS[i];
    if at + b.len() > room {
        *head(8) = 1;
        return;
    }
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), MEM.load(SeqCst).add(start + at), b.len()) };
    *head(i) = (at + b.len()) as u64;
}

fn logged(fs: &Fs, op: &Op) {
    if MEM.load(SeqCst).is_null() {
        return;
    }
    let mut line = serde_json::to_vec(op).unwrap_or_default();
    line.push(b'\n');
    put(2, *head(2) as usize, &line);
    for (i, o) in fs.out.iter().enumerate() {
        let done = *head(5 + i) as usize;
        if o.len() > done {
            put(5 + i, done, &o[done..]);
        }
    }
    if fs.mutations != *head(7) || op.op == "fsync" {
        *head(7) = fs.mutations;
        put(3, 0, &serde_json::to_vec(&fs.snapshot(false)).unwrap_or_default());
        put(4, 0, &serde_json::to_vec(&fs.snapshot(true)).unwrap_or_default());
    }
}

fn yes() -> bool {
    true
}
fn nothing() {}
fn nobody() -> usize {
    0
}

extern "C" fn start() {
    unsafe {
        let fd = libc::getenv(c"PLFS_FD".as_ptr());
        if fd.is_null() {
            return;
        }
        let fd = libc::atoi(fd);
        let p = libc::mmap(std::ptr::null_mut(), SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        if p == libc::MAP_FAILED {
            libc::_exit(97);
        }
        libc::close(fd);
        MEM.store(p as *mut u8, SeqCst);
        let n = *head(1) as usize;
        let spec = std::slice::from_raw_parts((p as *const u8).add(AREAS[1].0), n);
        let Ok(spec) = serde_json::from_slice::<Spec>(spec) else { libc::_exit(97) };
        for v in [c"PLFS_FD", c"LD_PRELOAD"] {
            libc::unsetenv(v.as_ptr());
        }
        *head(0) = 1;
        let host = Host { active: yes, point: nothing, who: nobody, logged, stdio: true };
        simfs::install(host, Fs::new(&spec));
    }
}

#[used]
#[link_section = ".init_array"]
static START: extern "C" fn() = start;

/// # Safety
/// As getrandom(2).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
    }
    len as isize
}

/// Time passes by operations, and leaps as planned. The wall clock starts at a fixed moment.
///
/// # Safety
/// As clock_gettime(2).
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut libc::timespec) -> i32 {
    let Some(t) = simfs::inspect(|fs| fs.wall() + READS.fetch_add(1, SeqCst) * 1000) else {
        return libc::syscall(libc::SYS_clock_gettime, clock, ts) as i32;
    };
    let base = if matches!(clock, 0 | 5 | 11) { simfs::model::NOW } else { 1_000_000 };
    (*ts).tv_sec = base + (t / 1_000_000_000) as i64;
    (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}
static READS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
