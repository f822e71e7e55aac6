//! The C library's file functions. Paths and descriptors of the simulated file system are served
//! from it; everything else goes to the kernel.

use crate::model::*;
use crate::{active, locked, point, with};
use libc::*;

#[inline]
unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

unsafe fn sys(n: i64, args: &[usize]) -> i64 {
    let g = |i: usize| args.get(i).copied().unwrap_or(0);
    fin(raw(n, g(0), g(1), g(2), g(3), g(4), g(5)))
}

/// Kernel convention to C library convention.
fn fin(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        unsafe { *__errno_location() = -r as i32 };
        -1
    } else {
        r
    }
}

unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    if p.is_null() {
        return b"";
    }
    std::ffi::CStr::from_ptr(p).to_bytes()
}

/// Kills this process the way SIGKILL does.
fn die() -> ! {
    unsafe {
        let pid = raw(39, 0, 0, 0, 0, 0, 0);
        raw(62, pid as usize, 9, 0, 0, 0, 0);
    }
    loop {}
}

pub const OP_LIMIT: u64 = 300_000;

/// One operation: fault, effect, record.
fn operate(
    op: &str,
    target: impl FnOnce(&Fs) -> Result<Vec<u8>, i32>,
    body: impl FnOnce(&mut Fs, Option<&Act>) -> Result<i64, i32>,
) -> i64 {
    point();
    let r = with(|h, fs| {
        fs.ops_done += 1;
        if fs.ops_done > OP_LIMIT {
            fs.ops.push(Op { who: (h.who)(), op: "livelock".into(), path: String::new(), res: 0, fault: None });
            (h.logged)(fs, fs.ops.last().unwrap());
            if h.stdio {
                die();
            }
            return -(EIO as i64);
        }
        let path = target(fs);
        let named = path.clone().unwrap_or_default();
        let fault = fs.fault(op, &named);
        let act = fault.as_ref().map(|f| f.1.clone());
        if act == Some(Act::Kill) {
            let o = Op { who: (h.who)(), op: op.into(), path: enc(&named), res: 0, fault: fault.map(|f| f.0) };
            fs.ops.push(o);
            (h.logged)(fs, fs.ops.last().unwrap());
            die();
        }
        if let Some(Act::Replace(c)) = &act {
            fs.replace(&named, &dec(c));
        }
        let r = match (&act, path) {
            (Some(Act::Err(e)), _) => Err(*e),
            (_, Err(e)) => Err(e),
            (a, Ok(_)) => body(fs, a.as_ref()),
        };
        let res = match r {
            Ok(v) => v,
            Err(e) => -(e as i64),
        };
        fs.ops.push(Op { who: (h.who)(), op: op.into(), path: enc(&named), res, fault: fault.map(|f| f.0) });
        (h.logged)(fs, fs.ops.last().unwrap());
        res
    });
    fin(r.unwrap_or(-(EBADF as i64)))
}

fn fake(fd: i32) -> bool {
    fd >= FD0
}

/// The path is simulated.
fn ours(dir: i32, path: &[u8]) -> bool {
    active() && !outside(path) && (path.first() == Some(&b'/') || dir == AT_FDCWD || fake(dir))
}

fn base(fs: &Fs, dir: i32) -> Option<usize> {
    if dir == AT_FDCWD {
        fs.cwd
    } else {
        fs.fds.get(&dir).map(|o| o.ino)
    }
}

fn named(fs: &Fs, dir: i32, path: &[u8], follow: bool) -> Result<Vec<u8>, i32> {
    fs.find(base(fs, dir), path, follow).map(|f| fs.name_of(&f))
}

/// Changing anything outside the simulation is refused.
fn refuse(op: &str, path: &[u8]) -> i64 {
    let p = path.to_vec();
    let op = format!("outside:{op}");
    operate(&op, |_| Ok(p), |_, _| Err(EROFS))
}

// ---------------------------------------------------------------- opening, reading, writing

unsafe fn open_at(dir: i32, path: *const c_char, flags: i32, mode: u32) -> i32 {
    let p = bytes(path);
    let writes = flags & O_ACCMODE != O_RDONLY || flags & (O_CREAT | O_TRUNC) != 0;
    if !ours(dir, p) {
        if active() && writes && !p.starts_with(b"/dev/") {
            return refuse("open", p) as i32;
        }
        return sys(SYS_openat, &[dir as usize, path as usize, flags as usize, mode as usize]) as i32;
    }
    let follow = flags & O_NOFOLLOW == 0;
    operate(
        "open",
        |fs| named(fs, dir, p, follow),
        |fs, _| {
            if fs.used_up() {
                return Err(EMFILE);
            }
            let f = fs.find(base(fs, dir), p, follow)?;
            let path = fs.name_of(&f);
            let ino = match f.ino {
                Some(_) if flags & O_CREAT != 0 && flags & O_EXCL != 0 => return Err(EEXIST),
                Some(i) => i,
                None if flags & O_CREAT != 0 && !f.dir => {
                    fs.mutations += 1;
                    fs.add(f.parent, f.name, Kind::File { data: vec![], durable: Some(vec![]) })
                }
                None => return Err(ENOENT),
            };
            match &mut fs.nodes[ino].kind {
                Kind::Dir(_) if writes => return Err(EISDIR),
                Kind::Link(_) => return Err(ELOOP),
                Kind::File { .. } if flags & O_DIRECTORY != 0 => return Err(ENOTDIR),
                Kind::File { data, .. } if flags & O_TRUNC != 0 && !data.is_empty() => {
                    fs.mutations += 1;
                    fs.file_mut(ino).unwrap().clear();
                }
                _ => {}
            }
            Ok(fs.new_fd(Open { ino, pos: 0, flags, path }) as i64)
        },
    ) as i32
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: i32, mode: u32) -> i32 {
    open_at(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: i32, mode: u32) -> i32 {
    open_at(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const c_char, flags: i32, mode: u32) -> i32 {
    open_at(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const c_char, flags: i32, mode: u32) -> i32 {
    open_at(dir, path, flags, mode)
}

fn fd_path(fd: i32) -> impl FnOnce(&Fs) -> Result<Vec<u8>, i32> {
    move |fs| fs.fds.get(&fd).map(|o| o.path.clone()).ok_or(EBADF)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if !fake(fd) {
        return sys(SYS_close, &[fd as usize]) as i32;
    }
    // Closed even by a failing close, and by a caller that is unwinding.
    let r = operate("close", fd_path(fd), |_, _| Ok(0)) as i32;
    locked(|s| s.as_mut().map(|(_, fs)| fs.fds.remove(&fd)));
    r
}

fn read_at(fd: i32, at: Option<u64>, n: usize, put: impl FnOnce(&[u8])) -> i64 {
    operate("read", fd_path(fd), |fs, act| {
        let o = fs.fds.get_mut(&fd).ok_or(EBADF)?;
        if o.flags & O_ACCMODE == O_WRONLY {
            return Err(EBADF);
        }
        let data = match &fs.nodes[o.ino].kind {
            Kind::File { data, .. } => data,
            Kind::Dir(_) => return Err(EISDIR),
            _ => return Err(EINVAL),
        };
        let pos = (at.unwrap_or(o.pos) as usize).min(data.len());
        let mut n = n.min(data.len() - pos);
        if let Some(Act::Short(k)) = act {
            n = n.min((*k).max(1) as usize);
        }
        put(&data[pos..pos + n]);
        if at.is_none() {
            o.pos = (pos + n) as u64;
        }
        Ok(n as i64)
    })
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if !fake(fd) {
        return sys(SYS_read, &[fd as usize, buf as usize, n]) as isize;
    }
    read_at(fd, None, n, |b| std::ptr::copy_nonoverlapping(b.as_ptr(), buf, b.len())) as isize
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, at: i64) -> isize {
    if !fake(fd) {
        return sys(SYS_pread64, &[fd as usize, buf as usize, n, at as usize]) as isize;
    }
    read_at(fd, Some(at as u64), n, |b| std::ptr::copy_nonoverlapping(b.as_ptr(), buf, b.len())) as isize
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const iovec, n: i32) -> isize {
    if !fake(fd) {
        return sys(SYS_readv, &[fd as usize, v as usize, n as usize]) as isize;
    }
    let v = std::slice::from_raw_parts(v, n as usize);
    let total = v.iter().map(|v| v.iov_len).sum();
    read_at(fd, None, total, |mut b| {
        for v in v {
            let k = v.iov_len.min(b.len());
            std::ptr::copy_nonoverlapping(b.as_ptr(), v.iov_base as *mut u8, k);
            b = &b[k..];
        }
    }) as isize
}

fn stdio(fd: i32) -> bool {
    (fd == 1 || fd == 2) && with(|h, _| h.stdio).unwrap_or(false)
}

fn write_at(fd: i32, at: Option<u64>, data: &[u8]) -> i64 {
    if fd == 1 || fd == 2 {
        let name: &[u8] = if fd == 1 { b"<stdout>" } else { b"<stderr>" };
        let i = fd as usize - 1;
        return operate(if fd == 1 { "stdout" } else { "stderr" }, |_| Ok(name.to_vec()), |fs, act| {
            let n = match act {
                Some(Act::Short(k)) => data.len().min((*k).max(1) as usize),
                _ => data.len(),
            };
            fs.out[i].extend_from_slice(&data[..n]);
            Ok(n as i64)
        });
    }
    operate("write", fd_path(fd), |fs, act| {
        let o = fs.fds.get(&fd).ok_or(EBADF)?.clone();
        if o.flags & O_ACCMODE == O_RDONLY {
            return Err(EBADF);
        }
        let n = match act {
            Some(Act::Short(k)) => data.len().min((*k).max(1) as usize),
            _ => data.len(),
        };
        if n == 0 {
            return Ok(0);
        }
        fs.mutations += 1;
        let file = fs.file_mut(o.ino).ok_or(EINVAL)?;
        let pos = match at {
            Some(p) => p as usize,
            None if o.flags & O_APPEND != 0 => file.len(),
            None => o.pos as usize,
        };
        if file.len() < pos + n {
            file.resize(pos + n, 0);
        }
        file[pos..pos + n].copy_from_slice(&data[..n]);
        if at.is_none() {
            fs.fds.get_mut(&fd).unwrap().pos = (pos + n) as u64;
        }
        Ok(n as i64)
    })
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if !fake(fd) && !stdio(fd) {
        return sys(SYS_write, &[fd as usize, buf as usize, n]) as isize;
    }
    signal(fd, write_at(fd, None, std::slice::from_raw_parts(buf, n))) as isize
}

/// Nobody reads what a process writes: it is told by a signal first.
fn signal(fd: i32, r: i64) -> i64 {
    let piped = r == -1 && stdio(fd) && std::io::Error::last_os_error().raw_os_error() == Some(EPIPE);
    if piped {
        // Returns if the signal is ignored.
        unsafe { libc::raise(libc::SIGPIPE) };
        unsafe { *libc::__errno_location() = EPIPE };
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const u8, n: usize, at: i64) -> isize {
    if !fake(fd) {
        return sys(SYS_pwrite64, &[fd as usize, buf as usize, n, at as usize]) as isize;
    }
    write_at(fd, Some(at as u64), std::slice::from_raw_parts(buf, n)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const iovec, n: i32) -> isize {
    if !fake(fd) && !stdio(fd) {
        return sys(SYS_writev, &[fd as usize, v as usize, n as usize]) as isize;
    }
    let mut all = vec![];
    for v in std::slice::from_raw_parts(v, n as usize) {
        if v.iov_len > 0 {
            all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
    }
    signal(fd, write_at(fd, None, &all)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if !fake(fd) {
        return sys(SYS_lseek, &[fd as usize, off as usize, whence as usize]);
    }
    operate("lseek", fd_path(fd), |fs, _| {
        let o = fs.fds.get_mut(&fd).ok_or(EBADF)?;
        let len = match &fs.nodes[o.ino].kind {
            Kind::File { data, .. } => data.len() as i64,
            _ => 0,
        };
        let p = match whence {
            SEEK_SET => off,
            SEEK_CUR => o.pos as i64 + off,
            SEEK_END => len + off,
            _ => return Err(EINVAL),
        };
        if p < 0 {
            return Err(EINVAL);
        }
        o.pos = p as u64;
        Ok(p)
    })
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
    lseek64(fd, off, whence)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    if !fake(fd) {
        return sys(SYS_ftruncate, &[fd as usize, len as usize]) as i32;
    }
    operate("truncate", fd_path(fd), |fs, _| {
        fs.mutations += 1;
        let ino = fs.fds[&fd].ino;
        fs.file_mut(ino).ok_or(EINVAL)?.resize(len as usize, 0);
        Ok(0)
    }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, len: i64) -> i32 {
    ftruncate64(fd, len)
}

unsafe fn sync(fd: i32, n: i64) -> i32 {
    if !fake(fd) {
        return sys(n, &[fd as usize]) as i32;
    }
    operate("fsync", fd_path(fd), |fs, _| {
        let ino = fs.fds[&fd].ino;
        fs.sync(ino);
        Ok(0)
    }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    sync(fd, SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    sync(fd, SYS_fdatasync)
}

// Not there; callers fall back to reading and writing.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: i32, pa: *mut i64, b: i32, pb: *mut i64, n: usize, f: u32) -> isize {
    if fake(a) || fake(b) {
        return fin(-(ENOSYS as i64)) as isize;
    }
    sys(SYS_copy_file_range, &[a as usize, pa as usize, b as usize, pb as usize, n, f as usize]) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: i32, b: i32, p: *mut i64, n: usize) -> isize {
    if fake(a) || fake(b) {
        return fin(-(EINVAL as i64)) as isize;
    }
    sys(SYS_sendfile, &[a as usize, b as usize, p as usize, n]) as isize
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: i32, pa: *mut i64, b: i32, pb: *mut i64, n: usize, f: u32) -> isize {
    if fake(a) || fake(b) {
        return fin(-(EINVAL as i64)) as isize;
    }
    sys(SYS_splice, &[a as usize, pa as usize, b as usize, pb as usize, n, f as usize]) as isize
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    if !fake(fd) {
        return sys(SYS_fcntl, &[fd as usize, cmd as usize, arg]) as i32;
    }
    let r = with(|_, fs| match (fs.fds.get(&fd).cloned(), cmd) {
        (None, _) => -EBADF,
        (Some(o), F_DUPFD | F_DUPFD_CLOEXEC) => fs.new_fd(o),
        (Some(o), F_GETFL) => o.flags,
        (Some(_), _) => 0,
    });
    fin(r.unwrap_or(0) as i64) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: usize) -> i32 {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: i32, cmd: u64, arg: usize) -> i32 {
    if fake(fd) || stdio(fd) {
        return fin(-(ENOTTY as i64)) as i32;
    }
    sys(SYS_ioctl, &[fd as usize, cmd as usize, arg]) as i32
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: i32, how: i32) -> i32 {
    if fake(fd) {
        return 0;
    }
    sys(SYS_flock, &[fd as usize, how as usize]) as i32
}

// ---------------------------------------------------------------- metadata

struct Meta {
    ino: u64,
    mode: u32,
    size: u64,
    time: i64,
    dev: u64,
    names: u64,
}

fn meta(fs: &Fs, ino: usize, act: Option<&Act>) -> Meta {
    let (mode, mut size) = match &fs.nodes[ino].kind {
        Kind::File { data, .. } => (S_IFREG | 0o644, data.len() as u64),
        Kind::Dir(_) => (S_IFDIR | 0o755, 4096),
        Kind::Link(t) => (S_IFLNK | 0o777, t.len() as u64),
    };
    if let (Some(Act::Size(s)), true) = (act, mode & S_IFMT == S_IFREG) {
        size = *s;
    }
    Meta { ino: ino as u64 + 1, mode, size, time: fs.nodes[ino].time, dev: fs.device(ino), names: fs.names(ino) }
}

unsafe fn fill(st: *mut stat64, m: &Meta) {
    std::ptr::write_bytes(st, 0, 1);
    let st = &mut *st;
    st.st_dev = m.dev;
    st.st_ino = m.ino;
    st.st_nlink = m.names;
    st.st_mode = m.mode;
    st.st_size = m.size as i64;
    st.st_blksize = 4096;
    st.st_blocks = (m.size as i64 + 511) / 512;
    st.st_mtime = m.time;
    st.st_ctime = m.time;
    st.st_atime = m.time;
}

unsafe fn fillx(st: *mut statx, m: &Meta) {
    std::ptr::write_bytes(st, 0, 1);
    let st = &mut *st;
    st.stx_mask = STATX_BASIC_STATS | STATX_BTIME;
    st.stx_blksize = 4096;
    st.stx_nlink = m.names as u32;
    st.stx_mode = m.mode as u16;
    st.stx_ino = m.ino;
    st.stx_size = m.size;
    st.stx_blocks = m.size.div_ceil(512);
    st.stx_dev_minor = m.dev as u32;
    st.stx_mtime.tv_sec = m.time;
    st.stx_ctime.tv_sec = m.time;
    st.stx_atime.tv_sec = m.time;
    st.stx_btime.tv_sec = m.time;
}

fn stat_path(dir: i32, p: &[u8], follow: bool, put: impl FnOnce(&Meta)) -> i64 {
    operate("stat", |fs| named(fs, dir, p, follow), |fs, act| {
        let i = fs.find(base(fs, dir), p, follow)?.ino.ok_or(ENOENT)?;
        put(&meta(fs, i, act));
        Ok(0)
    })
}
fn stat_fd(fd: i32, put: impl FnOnce(&Meta)) -> i64 {
    operate("stat", fd_path(fd), |fs, act| {
        let i = fs.fds[&fd].ino;
        put(&meta(fs, i, act));
        Ok(0)
    })
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const c_char, flags: i32, mask: u32, st: *mut statx) -> i32 {
    let p = bytes(path);
    if flags & AT_EMPTY_PATH != 0 && p.is_empty() && fake(dir) {
        return stat_fd(dir, |m| fillx(st, m)) as i32;
    }
    // std asks with a null buffer whether the call exists.
    if path.is_null() || !ours(dir, p) {
        return sys(SYS_statx, &[dir as usize, path as usize, flags as usize, mask as usize, st as usize]) as i32;
    }
    stat_path(dir, p, flags & AT_SYMLINK_NOFOLLOW == 0, |m| fillx(st, m)) as i32
}
unsafe fn stat_at(dir: i32, path: *const c_char, st: *mut stat64, flags: i32) -> i32 {
    let p = bytes(path);
    if flags & AT_EMPTY_PATH != 0 && p.is_empty() && fake(dir) {
        return stat_fd(dir, |m| fill(st, m)) as i32;
    }
    if !ours(dir, p) {
        return sys(SYS_newfstatat, &[dir as usize, path as usize, st as usize, flags as usize]) as i32;
    }
    stat_path(dir, p, flags & AT_SYMLINK_NOFOLLOW == 0, |m| fill(st, m)) as i32
}
macro_rules! stats {
    ($($n:ident)*; $($l:ident)*; $($a:ident)*; $($f:ident)*) => {
        $(#[no_mangle]
        pub unsafe extern "C" fn $n(path: *const c_char, st: *mut stat64) -> i32 {
            stat_at(AT_FDCWD, path, st, 0)
        })*
        $(#[no_mangle]
        pub unsafe extern "C" fn $l(path: *const c_char, st: *mut stat64) -> i32 {
            stat_at(AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW)
        })*
        $(#[no_mangle]
        pub unsafe extern "C" fn $a(dir: i32, path: *const c_char, st: *mut stat64, flags: i32) -> i32 {
            stat_at(dir, path, st, flags)
        })*
        $(#[no_mangle]
        pub unsafe extern "C" fn $f(fd: i32, st: *mut stat64) -> i32 {
            if !fake(fd) {
                return sys(SYS_fstat, &[fd as usize, st as usize]) as i32;
            }
            stat_fd(fd, |m| fill(st, m)) as i32
        })*
    };
}
stats!(stat stat64; lstat lstat64; fstatat fstatat64; fstat fstat64);

unsafe fn access_at(dir: i32, path: *const c_char, mode: i32, flags: i32) -> i32 {
    let p = bytes(path);
    if !ours(dir, p) {
        return sys(SYS_faccessat, &[dir as usize, path as usize, mode as usize]) as i32;
    }
    stat_path(dir, p, flags & AT_SYMLINK_NOFOLLOW == 0, |_| ()) as i32
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: i32) -> i32 {
    access_at(AT_FDCWD, path, mode, 0)
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(dir: i32, path: *const c_char, mode: i32, flags: i32) -> i32 {
    access_at(dir, path, mode, flags)
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
    if !active() {
        if buf.is_null() {
            let b = malloc(4096) as *mut c_char;
            return if sys(SYS_getcwd, &[b as usize, 4096]) < 0 { std::ptr::null_mut() } else { b };
        }
        return if sys(SYS_getcwd, &[buf as usize, n]) < 0 { std::ptr::null_mut() } else { buf };
    }
    let mut out = vec![];
    let r = operate("getcwd", |fs| Ok(fs.cwd.map(|c| fs.dir_path(c)).unwrap_or_default()), |fs, _| {
        out = fs.dir_path(fs.cwd.ok_or(ENOENT)?);
        if !buf.is_null() && out.len() >= n {
            return Err(ERANGE);
        }
        Ok(0)
    });
    if r < 0 {
        return std::ptr::null_mut();
    }
    out.push(0);
    let to = if buf.is_null() { malloc(out.len()) as *mut c_char } else { buf };
    std::ptr::copy_nonoverlapping(out.as_ptr(), to as *mut u8, out.len());
    to
}

#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const c_char) -> i32 {
    let p = bytes(path);
    if !active() {
        return sys(SYS_chdir, &[path as usize]) as i32;
    }
    operate("chdir", |fs| named(fs, AT_FDCWD, p, true), |fs, _| {
        let i = fs.find(fs.cwd, p, true)?.ino.ok_or(ENOENT)?;
        if !matches!(fs.nodes[i].kind, Kind::Dir(_)) {
            return Err(ENOTDIR);
        }
        fs.cwd = Some(i);
        Ok(0)
    }) as i32
}

unsafe fn next<T: Copy>(name: &[u8]) -> T {
    let p = dlsym(RTLD_NEXT, name.as_ptr() as *const c_char);
    assert!(!p.is_null());
    std::mem::transmute_copy(&p)
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, to: *mut c_char) -> *mut c_char {
    let p = bytes(path);
    if !ours(AT_FDCWD, p) {
        let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = next(b"realpath\0");
        return f(path, to);
    }
    let mut out = vec![];
    let r = operate("realpath", |fs| named(fs, AT_FDCWD, p, true), |fs, _| {
        let f = fs.find(fs.cwd, p, true)?;
        f.ino.ok_or(ENOENT)?;
        out = fs.name_of(&f);
        Ok(0)
    });
    if r < 0 {
        return std::ptr::null_mut();
    }
    out.push(0);
    let to = if to.is_null() { malloc(out.len()) as *mut c_char } else { to };
    std::ptr::copy_nonoverlapping(out.as_ptr(), to as *mut u8, out.len());
    to
}

unsafe fn readlink_at(dir: i32, path: *const c_char, buf: *mut u8, n: usize) -> isize {
    let p = bytes(path);
    if !ours(dir, p) {
        return sys(SYS_readlinkat, &[dir as usize, path as usize, buf as usize, n]) as isize;
    }
    operate("readlink", |fs| named(fs, dir, p, false), |fs, _| {
        let i = fs.find(base(fs, dir), p, false)?.ino.ok_or(ENOENT)?;
        let Kind::Link(t) = &fs.nodes[i].kind else { return Err(EINVAL) };
        let k = t.len().min(n);
        std::ptr::copy_nonoverlapping(t.as_ptr(), buf, k);
        Ok(k as i64)
    }) as isize
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut u8, n: usize) -> isize {
    readlink_at(AT_FDCWD, path, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn readlinkat(dir: i32, path: *const c_char, buf: *mut u8, n: usize) -> isize {
    readlink_at(dir, path, buf, n)
}

// ---------------------------------------------------------------- directories

fn stream(fs: &mut Fs, ino: usize, path: Vec<u8>) -> Result<i64, i32> {
    let Kind::Dir(d) = &fs.nodes[ino].kind else { return Err(ENOTDIR) };
    if fs.used_up() {
        return Err(EMFILE);
    }
    let mut entries: Vec<(u64, Vec<u8>, usize, u8)> = d
        .iter()
        .map(|(n, i)| {
            let t = match fs.nodes[*i].kind {
                Kind::File { .. } => DT_REG,
                Kind::Dir(_) => DT_DIR,
                Kind::Link(_) => DT_LNK,
            };
            let mut h = fs.order ^ 0xcbf29ce484222325;
            for b in n {
                h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
            }
            h ^= h >> 29;
            h = h.wrapping_mul(0xbf58476d1ce4e5b9);
            (h ^ (h >> 32), n.clone(), *i, if fs.untyped { DT_UNKNOWN } else { t })
        })
        .collect();
    entries.push((0, b".".to_vec(), ino, DT_DIR));
    entries.push((1 + fs.order % 7, b"..".to_vec(), fs.nodes[ino].parent, DT_DIR));
    entries.sort();
    let fd = fs.new_fd(Open { ino, pos: 0, flags: O_RDONLY | O_DIRECTORY, path: path.clone() });
    let s = Box::new(Stream {
        fd,
        path,
        entries: entries.into_iter().map(|(_, n, i, t)| (n, i, t)).collect(),
        at: 0,
        buf: unsafe { std::mem::zeroed() },
    });
    let key = &*s as *const Stream as usize;
    fs.streams.insert(key, s);
    Ok(key as i64)
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut DIR {
    let p = bytes(path);
    if !ours(AT_FDCWD, p) {
        let f: unsafe extern "C" fn(*const c_char) -> *mut DIR = next(b"opendir\0");
        return f(path);
    }
    let mut key = 0;
    let r = operate("opendir", |fs| named(fs, AT_FDCWD, p, true), |fs, _| {
        let f = fs.find(fs.cwd, p, true)?;
        let path = fs.name_of(&f);
        key = stream(fs, f.ino.ok_or(ENOENT)?, path)?;
        Ok(0)
    });
    if r < 0 { std::ptr::null_mut() } else { key as *mut DIR }
}

#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: i32) -> *mut DIR {
    if !fake(fd) {
        let f: unsafe extern "C" fn(i32) -> *mut DIR = next(b"fdopendir\0");
        return f(fd);
    }
    let mut key = 0;
    let r = operate("opendir", fd_path(fd), |fs, _| {
        let o = fs.fds[&fd].clone();
        key = stream(fs, o.ino, o.path)?;
        fs.fds.remove(&fd);
        Ok(0)
    });
    if r < 0 { std::ptr::null_mut() } else { key as *mut DIR }
}

fn is_stream(d: *mut DIR) -> bool {
    locked(|s| s.as_ref().is_some_and(|(_, fs)| fs.streams.contains_key(&(d as usize))))
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if !is_stream(d) {
        let f: unsafe extern "C" fn(*mut DIR) -> *mut dirent64 = next(b"readdir64\0");
        return f(d);
    }
    let key = d as usize;
    let mut out = std::ptr::null_mut();
    let before = *__errno_location();
    let r = operate("readdir", |fs| Ok(fs.streams[&key].path.clone()), |fs, _| {
        let s = fs.streams.get_mut(&key).ok_or(EBADF)?;
        let Some((name, ino, t)) = s.entries.get(s.at) else { return Ok(0) };
        s.at += 1;
        s.buf.d_ino = *ino as u64 + 1;
        s.buf.d_off = s.at as i64;
        s.buf.d_type = *t;
        s.buf.d_reclen = std::mem::size_of::<dirent64>() as u16;
        for (i, b) in name.iter().take(255).enumerate() {
            s.buf.d_name[i] = *b as c_char;
        }
        s.buf.d_name[name.len().min(255)] = 0;
        out = &mut s.buf;
        Ok(1)
    });
    if r >= 0 {
        *__errno_location() = before;
    }
    out
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut DIR) -> *mut dirent64 {
    readdir64(d)
}

#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> i32 {
    if !is_stream(d) {
        let f: unsafe extern "C" fn(*mut DIR) -> i32 = next(b"closedir\0");
        return f(d);
    }
    locked(|s| {
        if let Some((_, fs)) = s {
            if let Some(s) = fs.streams.remove(&(d as usize)) {
                fs.fds.remove(&s.fd);
            }
        }
    });
    0
}

#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> i32 {
    let key = d as usize;
    if let Some(fd) = locked(|s| s.as_ref().and_then(|(_, fs)| fs.streams.get(&key).map(|s| s.fd))) {
        return fd;
    }
    let f: unsafe extern "C" fn(*mut DIR) -> i32 = next(b"dirfd\0");
    f(d)
}

#[no_mangle]
pub unsafe extern "C" fn rewinddir(d: *mut DIR) {
    if !is_stream(d) {
        let f: unsafe extern "C" fn(*mut DIR) = next(b"rewinddir\0");
        return f(d);
    }
    locked(|s| {
        if let Some(s) = s.as_mut().and_then(|(_, fs)| fs.streams.get_mut(&(d as usize))) {
            s.at = 0;
        }
    });
}

// ---------------------------------------------------------------- changing names

fn dir_mut(fs: &mut Fs, ino: usize) -> Result<&mut std::collections::BTreeMap<Vec<u8>, usize>, i32> {
    match &mut fs.nodes[ino].kind {
        Kind::Dir(d) => Ok(d),
        _ => Err(ENOTDIR),
    }
}

unsafe fn rename_at(d1: i32, a: *const c_char, d2: i32, b: *const c_char, flags: u32) -> i32 {
    let (pa, pb) = (bytes(a), bytes(b));
    if !active() {
        return sys(SYS_renameat2, &[d1 as usize, a as usize, d2 as usize, b as usize, flags as usize]) as i32;
    }
    if !ours(d1, pa) || !ours(d2, pb) {
        return refuse("rename", pb) as i32;
    }
    operate("rename", |fs| named(fs, d2, pb, false), |fs, _| {
        let f = fs.find(base(fs, d1), pa, false)?;
        let t = fs.find(base(fs, d2), pb, false)?;
        let from = f.ino.ok_or(ENOENT)?;
        if f.name.is_empty() || t.name.is_empty() {
            return Err(EBUSY);
        }
        if let Some(old) = t.ino {
            if flags & RENAME_NOREPLACE != 0 {
                return Err(EEXIST);
            }
            match (&fs.nodes[old].kind, &fs.nodes[from].kind) {
                (Kind::Dir(d), Kind::Dir(_)) if !d.is_empty() => return Err(ENOTEMPTY),
                (Kind::Dir(_), Kind::Dir(_)) => {}
                (Kind::Dir(_), _) => return Err(EISDIR),
                (_, Kind::Dir(_)) => return Err(ENOTDIR),
                _ => {}
            }
        }
        fs.mutations += 1;
        dir_mut(fs, f.parent)?.remove(&f.name);
        dir_mut(fs, t.parent)?.insert(t.name, from);
        fs.nodes[from].parent = t.parent;
        Ok(0)
    }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> i32 {
    rename_at(AT_FDCWD, a, AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: i32, a: *const c_char, d2: i32, b: *const c_char) -> i32 {
    rename_at(d1, a, d2, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d1: i32, a: *const c_char, d2: i32, b: *const c_char, f: u32) -> i32 {
    rename_at(d1, a, d2, b, f)
}

unsafe fn unlink_at(dir: i32, path: *const c_char, flags: i32) -> i32 {
    let p = bytes(path);
    if !active() {
        return sys(SYS_unlinkat, &[dir as usize, path as usize, flags as usize]) as i32;
    }
    if !ours(dir, p) {
        return refuse("unlink", p) as i32;
    }
    let rmdir = flags & AT_REMOVEDIR != 0;
    operate(if rmdir { "rmdir" } else { "unlink" }, |fs| named(fs, dir, p, false), |fs, _| {
        let f = fs.find(base(fs, dir), p, false)?;
        let i = f.ino.ok_or(ENOENT)?;
        match &fs.nodes[i].kind {
            Kind::Dir(_) if !rmdir => return Err(EISDIR),
            Kind::Dir(d) if !d.is_empty() => return Err(ENOTEMPTY),
            Kind::Dir(_) => {}
            _ if rmdir => return Err(ENOTDIR),
            _ => {}
        }
        if f.name.is_empty() {
            return Err(EBUSY);
        }
        fs.mutations += 1;
        dir_mut(fs, f.parent)?.remove(&f.name);
        Ok(0)
    }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> i32 {
    unlink_at(AT_FDCWD, path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> i32 {
    unlink_at(AT_FDCWD, path, AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: i32, path: *const c_char, flags: i32) -> i32 {
    unlink_at(dir, path, flags)
}

unsafe fn make(op: &str, dir: i32, path: *const c_char, real: i64, real_args: &[usize], kind: Kind) -> i32 {
    let p = bytes(path);
    if !active() {
        return sys(real, real_args) as i32;
    }
    if !ours(dir, p) {
        return refuse(op, p) as i32;
    }
    operate(op, |fs| named(fs, dir, p, false), |fs, _| {
        let f = fs.find(base(fs, dir), p, false)?;
        if f.ino.is_some() {
            return Err(EEXIST);
        }
        fs.mutations += 1;
        fs.add(f.parent, f.name, kind);
        Ok(0)
    }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: u32) -> i32 {
    make("mkdir", AT_FDCWD, path, SYS_mkdir, &[path as usize, mode as usize], Kind::Dir(Default::default()))
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(dir: i32, path: *const c_char, mode: u32) -> i32 {
    let a = [dir as usize, path as usize, mode as usize];
    make("mkdir", dir, path, SYS_mkdirat, &a, Kind::Dir(Default::default()))
}
#[no_mangle]
pub unsafe extern "C" fn symlink(to: *const c_char, path: *const c_char) -> i32 {
    let k = Kind::Link(bytes(to).to_vec());
    make("symlink", AT_FDCWD, path, SYS_symlink, &[to as usize, path as usize], k)
}
#[no_mangle]
pub unsafe extern "C" fn symlinkat(to: *const c_char, dir: i32, path: *const c_char) -> i32 {
    let k = Kind::Link(bytes(to).to_vec());
    make("symlink", dir, path, SYS_symlinkat, &[to as usize, dir as usize, path as usize], k)
}

unsafe fn link_at(d1: i32, a: *const c_char, d2: i32, b: *const c_char, flags: i32) -> i32 {
    let (pa, pb) = (bytes(a), bytes(b));
    if !active() {
        return sys(SYS_linkat, &[d1 as usize, a as usize, d2 as usize, b as usize, flags as usize]) as i32;
    }
    if !ours(d1, pa) || !ours(d2, pb) {
        return refuse("link", pb) as i32;
    }
    operate("link", |fs| named(fs, d2, pb, false), |fs, _| {
        let f = fs.find(base(fs, d1), pa, false)?;
        let t = fs.find(base(fs, d2), pb, false)?;
        if t.ino.is_some() {
            return Err(EEXIST);
        }
        let from = f.ino.ok_or(ENOENT)?;
        fs.mutations += 1;
        dir_mut(fs, t.parent)?.insert(t.name, from);
        Ok(0)
    }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> i32 {
    link_at(AT_FDCWD, a, AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: i32, a: *const c_char, d2: i32, b: *const c_char, f: i32) -> i32 {
    link_at(d1, a, d2, b, f)
}

unsafe fn touch(op: &str, dir: i32, path: *const c_char, real: i64, args: &[usize]) -> i32 {
    let p = bytes(path);
    if !active() {
        return sys(real, args) as i32;
    }
    if !ours(dir, p) {
        return refuse(op, p) as i32;
    }
    operate(op, |fs| named(fs, dir, p, true), |fs, _| {
        fs.find(base(fs, dir), p, true)?.ino.ok_or(ENOENT)?;
        Ok(0)
    }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: u32) -> i32 {
    touch("chmod", AT_FDCWD, path, SYS_chmod, &[path as usize, mode as usize])
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: i32, mode: u32) -> i32 {
    if fake(fd) {
        return 0;
    }
    sys(SYS_fchmod, &[fd as usize, mode as usize]) as i32
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(dir: i32, path: *const c_char, t: *const timespec, flags: i32) -> i32 {
    let a = [dir as usize, path as usize, t as usize, flags as usize];
    touch("utimens", dir, path, SYS_utimensat, &a)
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: i32, t: *const timespec) -> i32 {
    if fake(fd) {
        return 0;
    }
    sys(SYS_utimensat, &[fd as usize, 0, t as usize, 0]) as i32
}
