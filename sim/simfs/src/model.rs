//! Files, directories and links; descriptors; faults; the record of operations.
//!
//! Names and contents are bytes. In serialised form every byte is the character of that number.

use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub fn dec(s: &str) -> Vec<u8> {
    if let Some(r) = s.strip_prefix(LONG) {
        if let Some((Ok(len), Ok(seed))) = r.split_once(':').map(|(a, b)| (a.parse::<u64>(), b.parse::<u64>())) {
            let len = len.min(1 << 24);
            return (0..len).map(|i| (i ^ (i >> 8) ^ (i >> 16)).wrapping_add(seed) as u8).collect();
        }
    }
    s.chars().map(|c| c as u32 as u8).collect()
}
const LONG: char = '\u{2026}';
/// The short form of a long content.
pub fn pattern(len: u64, seed: u64) -> String {
    format!("{LONG}{len}:{seed}")
}
pub fn enc(b: &[u8]) -> String {
    b.iter().map(|b| *b as char).collect()
}

pub const FD0: i32 = 0x4000_0000;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    /// The operation fails with this error.
    Err(i32),
    /// A read or write transfers at most this many bytes.
    Short(u32),
    /// The size reported is this.
    Size(u64),
    /// Before the operation, somebody else atomically replaces the file.
    Replace(String),
    /// The process is killed before the operation.
    Kill,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    /// Kind of operation, or "*".
    pub op: String,
    /// Only on this path.
    pub path: Option<String>,
    /// From this matching operation on (counted from 0),
    pub nth: u64,
    /// so many times.
    pub times: u64,
    pub act: Act,
}

/// What to build a file system from.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Spec {
    /// Absolute paths with content; None: a directory.
    pub files: Vec<(String, Option<String>)>,
    /// Symbolic links.
    pub links: Vec<(String, String)>,
    /// Other names of files.
    #[serde(default)]
    pub aliases: Vec<(String, String)>,
    /// Directories with another file system mounted.
    #[serde(default)]
    pub mounts: Vec<String>,
    /// Working directory; none: it has been removed.
    pub cwd: Option<String>,
    /// Directories are read in an order that depends on this.
    pub order: u64,
    /// Directory entries do not tell their type.
    pub untyped: bool,
    pub faults: Vec<Fault>,
    /// How many files and directories can be open at a time; 0: any number.
    #[serde(default)]
    pub descriptors: usize,
    /// File times, and the clock of a simulated process, depend on this.
    #[serde(default)]
    pub clock: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    File { data: Vec<u8>, durable: Option<Vec<u8>> },
    Dir(BTreeMap<Vec<u8>, usize>),
    Link(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub kind: Kind,
    pub parent: usize,
    /// Last changed, in seconds.
    pub time: i64,
}

pub const NOW: i64 = 1_701_000_000;

fn mix(x: u64) -> u64 {
    let x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    let x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}


#[derive(Clone, Debug)]
pub struct Open {
    pub ino: usize,
    pub pos: u64,
    pub flags: i32,
    pub path: Vec<u8>,
}

#[repr(C)]
pub struct Stream {
    pub fd: i32,
    pub path: Vec<u8>,
    pub entries: Vec<(Vec<u8>, usize, u8)>,
    pub at: usize,
    pub buf: libc::dirent64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub who: usize,
    pub op: String,
    pub path: String,
    /// Result, or minus the error.
    pub res: i64,
    /// The fault injected.
    pub fault: Option<usize>,
}

pub struct Fs {
    pub nodes: Vec<Node>,
    pub cwd: Option<usize>,
    pub fds: BTreeMap<i32, Open>,
    pub streams: BTreeMap<usize, Box<Stream>>,
    next_fd: i32,
    descriptors: usize,
    pub order: u64,
    pub untyped: bool,
    clock: u64,
    mounts: Vec<usize>,
    aliased: BTreeMap<usize, u64>,
    pub faults: Vec<Fault>,
    counts: Vec<u64>,
    pub ops: Vec<Op>,
    pub ops_done: u64,
    /// Operations that change the file system.
    pub mutations: u64,
    pub out: [Vec<u8>; 2],
    /// Contents a path had, with the number of operations before it got it.
    pub versions: Vec<(Vec<u8>, u64, Vec<u8>)>,
}

pub const ROOT: usize = 0;
/// Existing system directories, not simulated.
const OUTSIDE: &[&[u8]] = &[b"proc", b"dev", b"etc", b"usr", b"lib", b"lib64", b"bin", b"sbin", b"sys", b"opt"];

fn comps(p: &[u8]) -> impl Iterator<Item = &[u8]> {
    p.split(|b| *b == b'/').filter(|c| !c.is_empty())
}

/// Paths the simulation does not cover.
pub fn outside(path: &[u8]) -> bool {
    path.first() == Some(&b'/') && comps(path).next().is_some_and(|c| OUTSIDE.contains(&c))
}

pub struct Found {
    pub parent: usize,
    pub name: Vec<u8>,
    pub ino: Option<usize>,
    /// Something like "x/" was asked for.
    pub dir: bool,
}

impl Fs {
    pub fn new(s: &Spec) -> Fs {
        let mut fs = Fs {
            nodes: vec![Node { kind: Kind::Dir(BTreeMap::new()), parent: ROOT, time: NOW }],
            cwd: None,
            fds: BTreeMap::new(),
            streams: BTreeMap::new(),
            next_fd: FD0,
            descriptors: s.descriptors,
            order: s.order,
            untyped: s.untyped,
            clock: s.clock,
            mounts: vec![],
            aliased: BTreeMap::new(),
            faults: s.faults.clone(),
            counts: vec![0; s.faults.len()],
            ops: vec![],
            ops_done: 0,
            mutations: 0,
            out: [vec![], vec![]],
            versions: vec![],
        };
        for (p, c) in &s.files {
            let p = dec(p);
            match c {
                None => {
                    fs.mkdirs(&p);
                }
                Some(c) => {
                    let kind = Kind::File { data: dec(c), durable: None };
                    fs.put(&p, kind);
                    fs.versions.push((p, 0, dec(c)));
                }
            }
        }
        for (p, t) in &s.links {
            fs.put(&dec(p), Kind::Link(dec(t)));
        }
        for (p, of) in &s.aliases {
            let (p, of) = (dec(p), dec(of));
            let file = fs.find(None, &of, false).ok().and_then(|f| f.ino);
            let Some((ino, Kind::File { data, .. })) = file.map(|i| (i, fs.nodes[i].kind.clone())) else { continue };
            let Ok(Found { parent, name, ino: None, .. }) = fs.find(None, &p, false) else { continue };
            if let Kind::Dir(d) = &mut fs.nodes[parent].kind {
                d.insert(name, ino);
                *fs.aliased.entry(ino).or_default() += 1;
                fs.versions.push((p, 0, data));
            }
        }
        for p in &s.mounts {
            let i = fs.mkdirs(&dec(p));
            fs.mounts.push(i);
        }
        if let Some(c) = &s.cwd {
            fs.cwd = Some(fs.mkdirs(&dec(c)));
        }
        fs
    }

    /// Nanoseconds since the start, for a process whose clock is simulated: it passes by a
    /// millisecond per operation, and leaps.
    pub fn wall(&self) -> u64 {
        self.ops_done * 1_000_000 + self.leap().iter().sum::<u64>()
    }

    pub fn leaps(&self) -> u64 {
        self.leap().len() as u64
    }

    fn leap(&self) -> Vec<u64> {
        let n = if self.clock == 0 { 0 } else { self.ops_done.min(256) };
        (0..n)
            .map(|n| mix(self.clock ^ mix(n + 1)))
            .filter(|h| h % 8 == 0)
            .map(|h| [1, 150, 1_100, 61_000, 3_601_000, 86_401_000, 31_000_000_000][(h >> 8) as usize % 7] * 1_000_000)
            .collect()
    }

    fn mkdirs(&mut self, p: &[u8]) -> usize {
        let mut at = ROOT;
        let parts: Vec<Vec<u8>> = comps(p).map(|c| c.to_vec()).collect();
        for c in parts {
            let next = match &self.nodes[at].kind {
                Kind::Dir(d) => d.get(&c).copied(),
                _ => return at,
            };
            at = match next {
                Some(n) => n,
                None => self.add(at, c, Kind::Dir(BTreeMap::new())),
            };
        }
        at
    }

    fn put(&mut self, p: &[u8], kind: Kind) {
        let cut = p.iter().rposition(|b| *b == b'/').unwrap_or(0);
        let dir = self.mkdirs(&p[..cut]);
        if matches!(self.nodes[dir].kind, Kind::Dir(_)) && cut + 1 < p.len() {
            self.add(dir, p[cut + 1..].to_vec(), kind);
        }
    }

    pub fn add(&mut self, dir: usize, name: Vec<u8>, kind: Kind) -> usize {
        let ino = self.nodes.len();
        let h = mix(self.clock.wrapping_add(ino as u64));
        let time = match (self.clock, self.ops_done) {
            (0, _) => 1_000_000_000,
            // There from the start: of any age, or from the future.
            (_, 0) => [0, NOW - 400 * 86400, NOW - 86401, NOW - 3, NOW, NOW, NOW + 3600, i32::MAX as i64 + 5][h as usize % 8],
            _ => NOW + (self.wall() / 1_000_000_000) as i64,
        };
        self.nodes.push(Node { kind, parent: dir, time });
        if let Kind::Dir(d) = &mut self.nodes[dir].kind {
            d.insert(name, ino);
        }
        ino
    }

    pub fn path_of(&self, dir: usize, name: &[u8]) -> Vec<u8> {
        let mut parts = vec![name.to_vec()];
        let mut at = dir;
        let mut n = 0;
        while at != ROOT && n < 1024 {
            let up = self.nodes[at].parent;
            if let Kind::Dir(d) = &self.nodes[up].kind {
                if let Some((k, _)) = d.iter().find(|(_, v)| **v == at) {
                    parts.push(k.clone());
                }
            }
            at = up;
            n += 1;
        }
        let mut r = vec![];
        for p in parts.iter().rev().filter(|p| !p.is_empty()) {
            r.push(b'/');
            r.extend_from_slice(p);
        }
        if r.is_empty() {
            r.push(b'/');
        }
        r
    }

    pub fn dir_path(&self, ino: usize) -> Vec<u8> {
        self.path_of(ino, b"")
    }

    /// Finds what a path names.
    pub fn find(&self, base: Option<usize>, path: &[u8], follow: bool) -> Result<Found, i32> {
        self.find_depth(base, path, follow, 0)
    }

    fn find_depth(&self, base: Option<usize>, path: &[u8], follow: bool, depth: u32) -> Result<Found, i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if depth > 16 {
            return Err(libc::ELOOP);
        }
        if path.len() > 4000 {
            return Err(libc::ENAMETOOLONG);
        }
        let mut at = if path[0] == b'/' { ROOT } else { base.ok_or(libc::ENOENT)? };
        let parts: Vec<&[u8]> = comps(path).collect();
        let slash = path.last() == Some(&b'/');
        let mut last = Found { parent: at, name: vec![], ino: Some(at), dir: true };
        for (i, c) in parts.iter().enumerate() {
            let end = i + 1 == parts.len();
            let Kind::Dir(d) = &self.nodes[at].kind else { return Err(libc::ENOTDIR) };
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            if *c == b"." || *c == b".." {
                if *c == b".." {
                    at = self.nodes[at].parent;
                }
                last = Found { parent: at, name: vec![], ino: Some(at), dir: true };
                continue;
            }
            let ino = d.get(*c).copied();
            let Some(n) = ino else {
                if end {
                    return Ok(Found { parent: at, name: c.to_vec(), ino: None, dir: slash });
                }
                return Err(libc::ENOENT);
            };
            if let Kind::Link(t) = &self.nodes[n].kind {
                if !end || follow || slash {
                    let r = self.find_depth(Some(at), t, true, depth + 1)?;
                    if end {
                        return Ok(r);
                    }
                    at = r.ino.ok_or(libc::ENOENT)?;
                    continue;
                }
            }
            if end && slash && !matches!(self.nodes[n].kind, Kind::Dir(_)) {
                return Err(libc::ENOTDIR);
            }
            last = Found { parent: at, name: c.to_vec(), ino: Some(n), dir: false };
            at = n;
        }
        Ok(last)
    }

    /// The absolute path of what was found.
    /// The device something is on.
    pub fn device(&self, mut ino: usize) -> u64 {
        loop {
            match self.mounts.iter().position(|m| *m == ino) {
                Some(i) => return 78 + i as u64,
                None if ino == ROOT => return 77,
                None => ino = self.nodes[ino].parent,
            }
        }
    }

    /// The number of names of a file.
    pub fn names(&self, ino: usize) -> u64 {
        1 + self.aliased.get(&ino).copied().unwrap_or(0)
    }

    pub fn name_of(&self, f: &Found) -> Vec<u8> {
        match (f.name.is_empty(), f.ino) {
            (true, Some(i)) => self.dir_path(i),
            _ => self.path_of(f.parent, &f.name),
        }
    }

    pub fn fault(&mut self, op: &str, path: &[u8]) -> Option<(usize, Act)> {
        let p = enc(path);
        let mut hit = None;
        for i in 0..self.faults.len() {
            let f = &self.faults[i];
            if (f.op == op || f.op == "*") && f.path.as_ref().is_none_or(|x| *x == p) {
                let n = self.counts[i];
                self.counts[i] += 1;
                if hit.is_none() && n >= f.nth && n - f.nth < f.times {
                    hit = Some((i, f.act.clone()));
                }
            }
        }
        hit
    }

    /// Another process renames a new file over this one.
    pub fn replace(&mut self, path: &[u8], content: &[u8]) {
        let Ok(f) = self.find(None, path, false) else { return };
        if f.name.is_empty() || f.ino.is_none() {
            return;
        }
        self.add(f.parent, f.name, Kind::File { data: content.to_vec(), durable: None });
        self.versions.push((path.to_vec(), self.ops_done, content.to_vec()));
    }

    /// Is another descriptor more than there may be?
    pub fn used_up(&self) -> bool {
        self.descriptors > 0 && self.fds.len() >= self.descriptors
    }

    pub fn new_fd(&mut self, o: Open) -> i32 {
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, o);
        fd
    }

    pub fn file_mut(&mut self, ino: usize) -> Option<&mut Vec<u8>> {
        self.nodes[ino].time = NOW + (self.wall() / 1_000_000_000) as i64;
        match &mut self.nodes[ino].kind {
            Kind::File { data, durable } => {
                if durable.is_none() {
                    *durable = Some(data.clone());
                }
                Some(data)
            }
            _ => None,
        }
    }

    pub fn sync(&mut self, ino: usize) {
        if let Kind::File { durable, .. } = &mut self.nodes[ino].kind {
            *durable = None;
        }
    }

    /// Everything there is: path, content (none: directory, or a link's target after "-> ").
    pub fn snapshot(&self, power_loss: bool) -> Vec<(String, Option<String>)> {
        let mut r = vec![];
        let mut todo = vec![(ROOT, vec![])];
        while let Some((ino, path)) = todo.pop() {
            match &self.nodes[ino].kind {
                Kind::Dir(d) => {
                    if !path.is_empty() {
                        r.push((enc(&path), None));
                    }
                    for (n, c) in d {
                        let mut p = path.clone();
                        p.push(b'/');
                        p.extend_from_slice(n);
                        todo.push((*c, p));
                    }
                }
                Kind::File { data, durable } => {
                    let d = match durable {
                        Some(d) if power_loss => d,
                        _ => data,
                    };
                    r.push((enc(&path), Some(enc(d))));
                }
                Kind::Link(t) => r.push((enc(&path) + " -> " + &enc(t), None)),
            }
        }
        r.sort();
        r
    }
}
