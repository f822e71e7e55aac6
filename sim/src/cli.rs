//! The real binary on a simulated file system and terminal (C15, C16).

use crate::case::*;
use crate::fsrepo::{self, below, broken, tree, tree_with, EIO};
use serde::{Deserialize, Serialize};
use simfs::model::{dec, enc};
use simfs::{Act, Fault, Fs, Op, Spec};
use simrt::rng::Rng;
use std::collections::BTreeSet;
use std::ffi::CString;
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub struct CliFamily;

const EPIPE: i32 = 32;
const ENOSPC: i32 = 28;
const EAGAIN: i32 = 11;
const EROFS: i32 = 30;
const EDQUOT: i32 = 122;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum What {
    List,
    Save(Option<String>, Option<String>),
    Delete(Option<String>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Command {
    what: What,
    /// Say "ls" rather than "list".
    short: bool,
    /// Where the options go.
    options_last: bool,
    long: bool,
    faults: Vec<Fault>,
    /// Afterwards the machine loses power.
    power_loss: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scenario {
    fs: Spec,
    context: Option<String>,
    ext: Option<String>,
    commands: Vec<Command>,
}

// ---------------------------------------------------------------- one process

const SIZE: usize = 4 << 20;
const SPEC: usize = 4096;
const LOG: usize = 600 << 10;
const SNAP: usize = 1700 << 10;
const SNAP2: usize = 2300 << 10;
const OUT: usize = 2900 << 10;
const ERR: usize = 3200 << 10;

struct Mem {
    fd: i32,
    at: *mut u8,
}
unsafe impl Send for Mem {}
unsafe impl Sync for Mem {}

static MEM: OnceLock<(i32, Mem)> = OnceLock::new();

impl Mem {
    fn get() -> &'static Mem {
        let pid = unsafe { libc::getpid() };
        let (owner, m) = MEM.get_or_init(|| unsafe {
            let fd = libc::memfd_create(c"plsim".as_ptr(), 0);
            assert!(fd >= 0 && libc::ftruncate(fd, SIZE as i64) == 0);
            let at = libc::mmap(
                std::ptr::null_mut(),
                SIZE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                fd,
                0,
            );
            assert!(at != libc::MAP_FAILED);
            (pid, Mem { fd, at: at as *mut u8 })
        });
        assert!(*owner == pid, "memory of another process");
        m
    }
    fn head(&self, i: usize) -> *mut u64 {
        unsafe { (self.at as *mut u64).add(i) }
    }
    fn bytes(&self, at: usize, len: u64) -> Vec<u8> {
        unsafe { std::slice::from_raw_parts(self.at.add(at), (len as usize).min(SIZE - at)).to_vec() }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Exit {
    Code(i32),
    Signal(i32),
    Killed,
    Hung,
}

#[derive(Debug)]
struct Ran {
    exit: Exit,
    out: Vec<u8>,
    err: Vec<u8>,
    ops: Vec<Op>,
    mutations: u64,
    /// What the file system holds now, and what it would hold after a power loss.
    after: Vec<(String, Option<String>)>,
    durable: Vec<(String, Option<String>)>,
}

fn file(name: &str) -> String {
    let root = std::env::var("PLSIM_ROOT").unwrap_or_else(|_| ".".into());
    format!("{root}/sim/target/{name}")
}

/// Panic messages name the process.
fn without_pid(b: Vec<u8>, pid: i32) -> Vec<u8> {
    let s = enc(&b);
    dec(&s.replace(&format!("({pid})"), "(pid)"))
}

fn spawn(args: &[Vec<u8>], spec: &Spec) -> Result<Ran, String> {
    let m = Mem::get();
    let json = serde_json::to_vec(spec).unwrap();
    if json.len() > (512 << 10) {
        return Err("file system too large".into());
    }
    unsafe {
        for i in 0..9 {
            *m.head(i) = 0;
        }
        std::ptr::copy_nonoverlapping(json.as_ptr(), m.at.add(SPEC), json.len());
        *m.head(1) = json.len() as u64;
    }
    let bin = CString::new(file("cli/release/plotline")).unwrap();
    let mut argv: Vec<CString> = vec![CString::new("plotline").unwrap()];
    for a in args {
        argv.push(CString::new(a.clone()).map_err(|_| "argument")?);
    }
    let envs: Vec<CString> = [
        format!("LD_PRELOAD={}", file("preload/release/libplpreload.so")),
        format!("PLFS_FD={}", m.fd),
        "HOME=/nowhere".into(),
        "NO_COLOR=1".into(),
        "RUST_BACKTRACE=0".into(),
    ]
    .into_iter()
    .map(|e| CString::new(e).unwrap())
    .collect();
    let ptrs = |v: &[CString]| -> Vec<*mut libc::c_char> {
        v.iter().map(|c| c.as_ptr() as *mut _).chain([std::ptr::null_mut()]).collect()
    };
    let (pa, pe) = (ptrs(&argv), ptrs(&envs));
    let mut pid = 0;
    unsafe {
        let mut fa: libc::posix_spawn_file_actions_t = std::mem::zeroed();
        libc::posix_spawn_file_actions_init(&mut fa);
        for fd in 0..3 {
            libc::posix_spawn_file_actions_addopen(&mut fa, fd, c"/dev/null".as_ptr(), libc::O_RDWR, 0);
        }
        let r = libc::posix_spawn(&mut pid, bin.as_ptr(), &fa, std::ptr::null(), pa.as_ptr(), pe.as_ptr());
        libc::posix_spawn_file_actions_destroy(&mut fa);
        if r != 0 {
            panic!("cannot start the binary: {r}");
        }
    }
    // Wait; a process that is not done after long is hung.
    let start = Instant::now();
    let mut st = 0;
    let pidfd = unsafe { libc::syscall(libc::SYS_pidfd_open, pid, 0) } as i32;
    let mut hung = false;
    loop {
        if pidfd >= 0 {
            let mut p = libc::pollfd { fd: pidfd, events: libc::POLLIN, revents: 0 };
            unsafe { libc::poll(&mut p, 1, 1000) };
        } else {
            std::thread::sleep(Duration::from_micros(200));
        }
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            break;
        }
        if start.elapsed() > Duration::from_secs(60) {
            hung = true;
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
            }
            break;
        }
    }
    if pidfd >= 0 {
        unsafe { libc::close(pidfd) };
    }
    let h = |i: usize| unsafe { *m.head(i) };
    if h(0) != 1 {
        panic!("the binary did not start under the simulated file system (status {st})");
    }
    if h(8) != 0 {
        return Err("record too large".into());
    }
    let ops: Vec<Op> = m
        .bytes(LOG, h(2))
        .split(|b| *b == b'\n')
        .filter(|l| !l.is_empty())
        .filter_map(|l| serde_json::from_slice(l).ok())
        .collect();
    let initial = || Fs::new(spec).snapshot(false);
    let snap = |at: usize, i: usize| {
        if h(i) == 0 {
            initial()
        } else {
            serde_json::from_slice(&m.bytes(at, h(i))).unwrap()
        }
    };
    let kill = ops.last().is_some_and(|o| o.fault.is_some_and(|f| spec.faults[f].act == Act::Kill));
    let livelock = ops.iter().any(|o| o.op == "livelock");
    let exit = if hung || livelock {
        Exit::Hung
    } else if libc::WIFEXITED(st) {
        Exit::Code(libc::WEXITSTATUS(st))
    } else if kill {
        Exit::Killed
    } else {
        Exit::Signal(libc::WTERMSIG(st))
    };
    Ok(Ran {
        exit,
        out: m.bytes(OUT, h(5)),
        err: without_pid(m.bytes(ERR, h(6)), pid),
        ops,
        mutations: h(7),
        after: snap(SNAP, 3),
        durable: snap(SNAP2, 4),
    })
}

// ---------------------------------------------------------------- commands

fn arguments(s: &Scenario, c: &Command) -> Vec<Vec<u8>> {
    let mut options = vec![];
    if let Some(x) = &s.context {
        if c.long {
            options.push([b"--context=".to_vec(), dec(x)].concat());
        } else {
            options.push(b"-C".to_vec());
            options.push(dec(x));
        }
    }
    if let Some(x) = &s.ext {
        if c.long {
            options.push(b"--extension".to_vec());
        } else {
            options.push(b"-e".to_vec());
        }
        options.push(dec(x));
    }
    let mut r = vec![];
    if !c.options_last {
        r.extend(options.clone());
    }
    r.push(b"doc".to_vec());
    match &c.what {
        What::List => r.push(if c.short { b"ls".to_vec() } else { b"list".to_vec() }),
        What::Save(id, content) => {
            r.extend(id.as_ref().map(|i| dec(i)));
            r.push(b"save".to_vec());
            r.extend(content.as_ref().map(|i| dec(i)));
        }
        What::Delete(id) => {
            r.extend(id.as_ref().map(|i| dec(i)));
            r.push(b"delete".to_vec());
        }
    }
    if c.options_last {
        r.extend(options);
    }
    r
}

fn base(s: &Scenario) -> String {
    s.context.clone().unwrap_or_else(|| s.fs.cwd.clone().unwrap_or_else(|| ".".into()))
}
fn extension(s: &Scenario) -> String {
    s.ext.clone().unwrap_or_else(|| "md".into())
}

fn is_utf8(s: &str) -> bool {
    String::from_utf8(dec(s)).is_ok()
}

fn plain_id(i: &str) -> bool {
    let words = ["list", "ls", "save", "delete", "help"];
    !i.is_empty()
        && is_utf8(i)
        && !i.starts_with('-')
        && !words.contains(&i)
        && !i.contains('\0')
        && i.split('/').all(|c| !c.is_empty() && c != "." && c != "..")
}

fn well_formed(s: &Scenario) -> Result<(), String> {
    let under = |p: &String| p.starts_with("/simfs/") && !p.ends_with('/');
    if !s.fs.files.iter().all(|f| under(&f.0)) || !s.fs.links.is_empty() {
        return Err("path".into());
    }
    if s.fs.cwd.as_ref().is_some_and(|c| !c.starts_with("/simfs")) || !s.fs.faults.is_empty() {
        return Err("fs".into());
    }
    let good = |o: &String| !o.is_empty() && !o.starts_with('-') && !o.contains('\0') && is_utf8(o);
    if s.context.as_ref().is_some_and(|c| c.is_empty() || c.starts_with('-') || c.contains('\0')) {
        return Err("context".into());
    }
    if s.ext.as_ref().is_some_and(|e| !good(e) || e.contains('/')) {
        return Err("extension".into());
    }
    if s.commands.is_empty() || s.commands.len() > 8 {
        return Err("commands".into());
    }
    for c in &s.commands {
        match &c.what {
            What::Save(Some(i), _) | What::Delete(Some(i)) if !plain_id(i) => return Err("id".into()),
            What::Save(None, Some(_)) => return Err("ambiguous".into()),
            What::Save(_, Some(x)) if x.starts_with('-') || x.contains('\0') || !is_utf8(x) => {
                return Err("content".into());
            }
            _ => {}
        }
        for f in &c.faults {
            let ignore_file = f.path.as_ref().is_some_and(|p| p.contains("/.git") || p.ends_with("/.ignore"));
            let ok = match (f.op.as_str(), &f.act) {
                ("stdout" | "stderr", Act::Err(_) | Act::Short(_)) => true,
                ("opendir" | "readdir" | "stat", Act::Err(e)) => *e != 4 && f.path.is_some() && !ignore_file,
                ("open" | "read", Act::Err(_)) => f.path.is_some() && !ignore_file,
                ("read", Act::Short(_)) => true,
                ("getcwd", Act::Err(_)) => true,
                ("write" | "fsync" | "rename" | "unlink" | "mkdir" | "truncate", Act::Err(_)) => true,
                ("write", Act::Short(_)) => true,
                (_, Act::Kill) => true,
                _ => false,
            };
            if !ok || matches!(f.act, Act::Err(e) if e <= 0 || e > 133) {
                return Err("fault".into());
            }
        }
    }
    Ok(())
}

struct Seen<'a> {
    s: &'a Scenario,
    c: &'a Command,
    /// The file system the command met.
    fs: &'a Fs,
    r: &'a Ran,
}

impl Seen<'_> {
    fn text(&self) -> String {
        let a: Vec<String> = arguments(self.s, self.c).iter().map(|a| enc(a)).collect();
        format!("`plotline {}`", a.join(" "))
    }
    fn hit<'b>(&'b self, ops: &'b [&'b str]) -> impl Iterator<Item = (&'b Op, &'b Act)> + 'b {
        self.r.ops.iter().filter_map(move |o| {
            let f = o.fault?;
            ops.contains(&o.op.as_str()).then(|| (o, &self.c.faults[f].act))
        })
    }
    fn failed(&self, ops: &[&str]) -> bool {
        self.hit(ops).any(|(o, a)| match a {
            Act::Err(e) => !(*e == 4 && matches!(o.op.as_str(), "stdout" | "stderr" | "read" | "open" | "write")),
            _ => false,
        })
    }

    /// Was each document printed once?
    fn printed(&self) -> Option<Violation> {
        let s = self.s;
        let mut t = tree(self.fs, &base(s), &extension(s));
        if self.hit(&["stat"]).next().is_some() {
            let wide = tree_with(self.fs, &base(s), &extension(s), false);
            t.maybe.extend(wide.docs.into_keys().chain(wide.maybe).filter(|i| !t.docs.contains_key(i)));
        }
        let broken = broken(&self.c.faults, &self.r.ops);
        let cwd_lost = broken.is_empty() && self.failed(&["getcwd"]);
        let out = String::from_utf8_lossy(&self.r.out).into_owned();
        let mut lines: Vec<&str> = out.split('\n').collect();
        if lines.last() == Some(&"") {
            lines.pop();
        }
        let show = |id: &Vec<u8>| {
            let p = fsrepo::path(&enc(id));
            (format!("{p:?}"), p.to_string_lossy().into_owned())
        };
        let mut left: Vec<Option<&str>> = lines.into_iter().map(Some).collect();
        let mut missing = vec![];
        for (id, file) in &t.docs {
            let (a, b) = show(id);
            match left.iter_mut().find(|l| l.is_some_and(|l| l == a || l == b)) {
                Some(l) => *l = None,
                None if broken.iter().any(|x| below(file, x)) || cwd_lost => {}
                None => missing.push(enc(id)),
            }
        }
        for id in &t.maybe {
            let (a, b) = show(id);
            if let Some(l) = left.iter_mut().find(|l| l.is_some_and(|l| l == a || l == b)) {
                *l = None;
            }
        }
        if !missing.is_empty() {
            return Some(Violation::new(
                "Untold",
                format!("{}: succeeded without printing {missing:?}; printed {out:?}", self.text()),
            ));
        }
        if let Some(l) = left.into_iter().flatten().next() {
            return Some(Violation::new("Extra", format!("{}: printed {l:?}, no document or one already printed", self.text())));
        }
        None
    }

    fn status(&self) -> Option<Violation> {
        let what = self.text();
        let err = String::from_utf8_lossy(&self.r.err).into_owned();
        let v = |c: &str, m: String| Some(Violation::new(c, m));
        let code = match &self.r.exit {
            Exit::Killed => return None,
            Exit::Hung => return v("Hang", format!("{what}: never ends")),
            Exit::Signal(n) => return v("Died", format!("{what}: died of signal {n}; {err:?}")),
            Exit::Code(c) => *c,
        };
        if code == 101 || err.contains("panicked at") {
            return v("Panic", format!("{what}: panicked: {err:?}"));
        }
        let t = tree(self.fs, &base(self.s), &extension(self.s));
        let out_lost = self.failed(&["stdout"]);
        let any_error = self.r.ops.iter().any(|o| {
            o.fault.is_some_and(|f| matches!(self.c.faults[f].act, Act::Err(_))) && o.op != "stdout" && o.op != "stderr"
        });
        let err_lost = self.failed(&["stderr"]);
        if code != 0 {
            if err.is_empty() && !err_lost {
                return v("Mute", format!("{what}: failed with status {code} and no error message"));
            }
            // What had to succeed?
            let had = match &self.c.what {
                What::List => !out_lost,
                What::Save(Some(_), _) => true,
                What::Delete(Some(id)) => t.docs.contains_key(&dec(id)),
                _ => false,
            };
            if had && !any_error && !err_lost && !self.failed(&["stdout"]) {
                return v("Refused", format!("{what}: failed with status {code} though nothing went wrong: {err:?}"));
            }
            return None;
        }
        if out_lost {
            return v("Pretended", format!("{what}: succeeded though its output was lost; delivered {:?}", enc(&self.r.out)));
        }
        match &self.c.what {
            What::List => self.printed(),
            What::Save(Some(_), _) => None,
            What::Delete(Some(id)) => {
                let b = dec(id);
                if !t.docs.contains_key(&b) && !t.maybe.contains(&b) {
                    let wide = tree_with(self.fs, &base(self.s), &extension(self.s), false);
                    if wide.docs.contains_key(&b) && self.hit(&["stat"]).next().is_some() {
                        return None;
                    }
                    return v("Pretended", format!("{what}: succeeded though there is no such document"));
                }
                None
            }
            _ => v("Pretended", format!("{what}: succeeded without an id")),
        }
    }
}

type Snapshot = Vec<(String, Option<String>)>;

fn to_spec(s: &Snapshot, like: &Spec) -> Spec {
    let mut r = Spec { cwd: like.cwd.clone(), order: like.order, untyped: like.untyped, clock: like.clock, ..Default::default() };
    for (p, c) in s {
        match p.split_once(" -> ") {
            Some((a, b)) if c.is_none() => r.links.push((a.into(), b.into())),
            _ => r.files.push((p.clone(), c.clone())),
        }
    }
    r
}

fn value<'a>(s: &'a Snapshot, p: &str) -> Option<&'a str> {
    s.iter().find(|f| f.0 == p).and_then(|f| f.1.as_deref())
}

/// Has the command kept its promises about the directory?
fn durable(x: &Seen, before: &Snapshot, after: &Snapshot) -> Option<Violation> {
    let what = x.text();
    let target = match &x.c.what {
        What::Save(Some(i), _) | What::Delete(Some(i)) => Some(enc(&fsrepo::file_of(x.fs, &base(x.s), &extension(x.s), i))),
        _ => None,
    };
    if let Some(o) = x.r.ops.iter().find(|o| o.op.starts_with("outside:")) {
        return Some(Violation::new("Outside", format!("{what}: tried to change {} ({})", o.path, o.op)));
    }
    // Everything but the target, and directories on the way to it.
    let spared = |f: &(String, Option<String>)| {
        target.as_ref().is_some_and(|t| f.0 == *t || f.1.is_none() && below(t.as_bytes(), f.0.as_bytes()))
    };
    let b: BTreeSet<_> = before.iter().filter(|f| !spared(f)).collect();
    let a: BTreeSet<_> = after.iter().filter(|f| !spared(f)).collect();
    if let Some(d) = b.symmetric_difference(&a).next() {
        return Some(Violation::new("Touched", format!("{what}: changed {:?} ({:?})", d.0, x.r.exit)));
    }
    let target = target?;
    let (was, is) = (value(before, &target), value(after, &target));
    let wanted = match &x.c.what {
        What::Save(_, c) => Some(c.clone().unwrap_or_default()),
        _ => None,
    };
    if is == wanted.as_deref() {
        return None;
    }
    if x.r.exit == Exit::Code(0) {
        let mut v = Violation::new(
            "Forgotten",
            format!("{what}: succeeded, and now {target} holds {is:?}, not {wanted:?}"),
        );
        if is == was && x.r.mutations == 0 && x.r.ops.iter().all(|o| !o.op.starts_with("outside:")) {
            v.finding = Some(match x.c.what {
                What::Save(..) => "save-writes-nothing".into(),
                _ => "delete-removes-nothing".into(),
            });
        }
        return Some(v);
    }
    if is != was {
        return Some(Violation::new(
            "Torn",
            format!("{what}: ended with {:?}, and now {target} holds {is:?}, neither {was:?} nor {wanted:?}", x.r.exit),
        ));
    }
    None
}

// ---------------------------------------------------------------- generation

fn gen_id(rng: &mut Rng, known: &[String]) -> String {
    for _ in 0..20 {
        let i = if !known.is_empty() && rng.chance(0.6) {
            rng.pick(known).clone()
        } else {
            let stem = rng.pick(&["a", "b", "new", "v1", "v1.2", "a.b", "sp ace", "\u{c3}\u{bc}n", "x.tar", "note"]).to_string();
            if rng.chance(0.25) { format!("{}/{stem}", rng.pick(&["d", "sub", "v1.2", "fresh"])) } else { stem }
        };
        if plain_id(&i) && i.split('/').all(|c| !c.starts_with('.')) {
            return i;
        }
    }
    "a".into()
}

fn gen_what(rng: &mut Rng, known: &[String], writes: f64) -> What {
    if !rng.chance(writes) {
        return What::List;
    }
    if rng.chance(0.5) {
        let id = if rng.chance(0.1) { None } else { Some(gen_id(rng, known)) };
        let mut n = rng.below(1000);
        let content = match (&id, rng.below(8)) {
            (None, _) | (_, 0) => None,
            (_, 1) => Some(String::new()),
            _ => Some(fsrepo::content(rng, &mut n)).filter(|c| !c.starts_with('-') && !c.contains('\0') && is_utf8(c)),
        };
        What::Save(id, content)
    } else {
        What::Delete(if rng.chance(0.1) { None } else { Some(gen_id(rng, known)) })
    }
}

fn stdio_faults(rng: &mut Rng) -> Vec<Fault> {
    let op = if rng.chance(0.85) { "stdout" } else { "stderr" };
    let mut r = vec![];
    for _ in 0..rng.range(1, 3) {
        let act = match rng.below(6) {
            0 | 1 => Act::Short(rng.range(1, 6) as u32),
            2 => Act::Err(4),
            _ => Act::Err(*rng.pick(&[EPIPE, EPIPE, ENOSPC, EIO, EAGAIN, EDQUOT])),
        };
        let times = match act {
            Act::Err(4) => rng.range(1, 5),
            Act::Short(_) => *rng.pick(&[1, 3, 1_000_000]),
            _ => *rng.pick(&[1, 1_000_000]),
        };
        r.push(Fault { op: op.into(), path: None, nth: rng.below(5), times, act });
    }
    r
}

fn gen(rng: &mut Rng, durable: bool) -> Scenario {
    let base = rng.pick(&["/simfs/base", "/simfs/base", "/simfs/ba.se", "/simfs/x.md", "/simfs/.base"]).to_string();
    let mut ext = Some(fsrepo::ext(rng)).filter(|e| !e.is_empty() && is_utf8(e) && !e.starts_with('-'));
    let e = ext.clone().unwrap_or_else(|| "md".into());
    if e == "md" && rng.chance(0.6) {
        ext = None;
    }
    let mut fs = Spec { order: rng.next() >> 32, untyped: rng.chance(0.2), ..Default::default() };
    fsrepo::grow(rng, &base, &e, &mut fs);
    let known: Vec<String> = fs
        .files
        .iter()
        .filter(|f| f.1.is_some())
        .filter_map(|(p, _)| p.strip_prefix(&format!("{base}/"))?.strip_suffix(&format!(".{e}")))
        .map(|s| s.to_string())
        .filter(|i| plain_id(i))
        .collect();
    if rng.chance(0.1) {
        fs.files.push((format!("{base}/.ignore"), Some("a.md\nd/\n".into())));
    }
    let (mut context, cwd) = fsrepo::name_base(rng, &base);
    fs.cwd = Some(cwd);
    let mut context_opt = Some(context.clone());
    if rng.chance(0.15) {
        fs.cwd = Some(base.clone());
        context_opt = None;
    } else if rng.chance(0.04) && !durable {
        context = base.clone();
        context_opt = Some(context);
        fs.cwd = None;
    } else if rng.chance(0.04) {
        context_opt = Some("/simfs/nowhere".into());
    }
    let n = if durable { rng.range(1, 4) } else { 1 };
    let writes = if durable { 0.85 } else { 0.45 };
    let mut commands = vec![];
    let mut ids = known.clone();
    for _ in 0..n {
        let what = gen_what(rng, &ids, writes);
        if let What::Save(Some(i), _) = &what {
            ids.push(i.clone());
        }
        let mut faults = vec![];
        if durable {
            match rng.below(10) {
                0..=2 => faults.push(Fault {
                    op: rng.pick(&["*", "*", "write", "rename", "unlink", "fsync", "open", "close", "mkdir", "stdout"]).to_string(),
                    path: None,
                    nth: if rng.chance(0.5) { rng.below(6) } else { rng.below(60) },
                    times: 1,
                    act: Act::Kill,
                }),
                3 | 4 => faults.push(Fault {
                    op: rng.pick(&["write", "write", "rename", "unlink", "fsync", "mkdir", "truncate"]).to_string(),
                    path: None,
                    nth: rng.below(3),
                    times: *rng.pick(&[1, 1_000_000]),
                    act: match rng.below(3) {
                        0 => Act::Err(ENOSPC),
                        1 => Act::Err(*rng.pick(&[EIO, EROFS, EDQUOT])),
                        _ => Act::Err(EIO),
                    },
                }),
                5 => faults.push(Fault {
                    op: "write".into(),
                    path: None,
                    nth: rng.below(2),
                    times: 1_000_000,
                    act: Act::Short(rng.range(1, 10) as u32),
                }),
                _ => {}
            }
        } else if rng.chance(0.75) {
            if rng.chance(0.65) {
                faults = stdio_faults(rng);
            }
            if faults.is_empty() || rng.chance(0.25) {
                let mut spec = Spec { files: fs.files.clone(), ..Default::default() };
                fsrepo::listing_faults(rng, &mut spec, &base);
                faults.extend(spec.faults);
            }
            if rng.chance(0.06) {
                faults.push(Fault { op: "getcwd".into(), path: None, nth: rng.below(3), times: 1, act: Act::Err(*rng.pick(&[2, 13, EIO])) });
            }
            if let (What::Save(Some(i), _) | What::Delete(Some(i)), true) = (&what, rng.chance(0.3)) {
                let p = format!("{base}/{i}.{e}");
                let op = *rng.pick(&["open", "read", "stat"]);
                faults.push(Fault { op: op.into(), path: Some(p), nth: rng.below(2), times: 1_000_000, act: Act::Err(EIO) });
            }
        }
        commands.push(Command {
            what,
            short: rng.chance(0.4),
            options_last: rng.chance(0.3),
            long: rng.chance(0.3),
            faults,
            power_loss: durable && rng.chance(0.3),
        });
    }
    Scenario { fs, context: context_opt, ext, commands }
}

impl Family for CliFamily {
    fn generate(&self, property: &str, rng: &mut Rng) -> serde_json::Value {
        serde_json::to_value(gen(rng, property == "C16")).unwrap()
    }

    fn execute(&self, case: &Case, stats: &mut Stats) -> Result<Outcome, String> {
        let s: Scenario = serde_json::from_value(case.scenario.clone()).map_err(|e| e.to_string())?;
        well_formed(&s)?;
        let keep = case.property == "C16";
        let mut spec = s.fs.clone();
        spec.clock = case.clock;
        // What is simulated here is another process's time.
        simrt::clock::stop();
        let mut trace = vec![];
        let mut found: Vec<Violation> = vec![];
        let mut faulty = false;
        stats.runs += 1;
        for c in &s.commands {
            let looks = Command {
                what: What::List,
                short: false,
                options_last: false,
                long: false,
                faults: vec![],
                power_loss: false,
            };
            for (i, c) in [c, &looks].into_iter().take(if keep { 2 } else { 1 }).enumerate() {
                spec.faults = c.faults.clone();
                let fs = Fs::new(&spec);
                let before = fs.snapshot(false);
                let r = spawn(&arguments(&s, c), &spec)?;
                let mut end = Fs::new(&spec);
                end.ops_done = r.ops.len() as u64;
                simrt::clock::pass(end.wall());
                stats.add("fault.clock_leap", end.leaps());
                stats.steps += r.ops.len() as u64;
                stats.add("processes", 1);
                stats.add(
                    match &r.exit {
                        Exit::Code(0) => "exit.success",
                        Exit::Code(_) => "exit.failure",
                        Exit::Killed => "exit.killed",
                        _ => "exit.other",
                    },
                    1,
                );
                faulty |= fsrepo::count_faults(stats, &c.faults, &r.ops);
                let x = Seen { s: &s, c, fs: &fs, r: &r };
                let after = if c.power_loss { &r.durable } else { &r.after };
                stats.add("fault.power_loss", c.power_loss as u64);
                trace.push(format!("{} -> {:?} out {:?} err {:?}", x.text(), r.exit, enc(&r.out), enc(&r.err)));
                trace.extend(r.ops.iter().map(|o| format!("{o:?}")));
                if keep {
                    found.extend(durable(&x, &before, after));
                    if i == 1 && r.exit == Exit::Code(0) {
                        found.extend(x.printed());
                    }
                    spec = to_spec(after, &s.fs);
                } else {
                    found.extend(x.status());
                }
            }
        }
        let hash = trace.iter().fold(7, |h, s| hash_str(h, s));
        if faulty || s.commands.len() > 1 {
            stats.nontrivial += 1;
            stats.seen.insert(hash);
        }
        // What is not a known finding first.
        found.sort_by_key(|v| v.finding.is_some());
        Ok(Outcome {
            violation: found.into_iter().next(),
            hash,
            decisions: vec![],
            trace,
            tainted: false,
            off_topic: None,
        })
    }

    fn budget(&self, property: &str, thorough: bool) -> Budget {
        match (thorough, property) {
            (true, _) => Budget { runs: 3_000_000, seconds: 600 },
            (false, "C16") => Budget { runs: 24_000, seconds: 70 },
            (false, _) => Budget { runs: 90_000, seconds: 70 },
        }
    }

    fn info(&self, property: &str) -> Info {
        Info {
            rule: match property {
                "C15" => "A case is a directory tree, a command line, and faults of standard output and error and of reading the directory and its files; non-trivial if a fault was hit; distinct by operations, output and exit status.",
                _ => "A case is a directory tree and a history of 1-4 commands, each with a kill at one of its operations, failing or partial writes, or a power loss afterwards, and each followed by a listing; non-trivial if a fault was hit or several commands ran; distinct by operations, output and exit status.",
            },
            real: &["the plotline binary, with every crate it uses and std (down to the C library calls), one process per command"],
            stub: &["the C library's file functions and writes to standard output and error (an in-memory file system and terminal)", "getrandom(2)"],
            assumptions: &[
                "ids are relative paths of ordinary names",
                "ignore files are readable, and hold plain names only",
                "after a power loss, names are as last changed and files hold what was last synced",
            ],
        }
    }
}
