//! Loading documents from, and finding them in, a directory (C13, C14).

use crate::case::*;
use crate::schema::{config, count_run};
use plotline::deref::TryDeref;
use plotline::document::lazy::LazyDocument;
use plotline::document::DocumentRepository;
use plotline::id::Identify;
use plotline_cli::repository::LocalDocumentRepository;
use serde::{Deserialize, Serialize};
use simfs::model::{dec, enc};
use simfs::{Act, Fault, Fs, Host, Op, Spec};
use simrt::rng::Rng;
use simrt::{lib, End};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub struct FsFamily;

pub const EIO: i32 = 5;
pub const EINTR: i32 = 4;
pub const EACCES: i32 = 13;
pub const EMFILE: i32 = 24;
pub const ENOMEM: i32 = 12;
pub const ESTALE: i32 = 116;

/// The directory every path of a scenario lies in.
pub const TOP: &str = "/simfs";

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Step {
    /// Ask the repository.
    Find(String),
    /// Access lazy document number.
    Deref(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Load {
    fs: Spec,
    context: String,
    ext: String,
    /// Lazy documents shared by the threads.
    lazy: Vec<String>,
    threads: Vec<Vec<Step>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Listing {
    fs: Spec,
    context: String,
    ext: String,
    threads: usize,
}

pub fn path(s: &str) -> PathBuf {
    PathBuf::from(OsString::from_vec(dec(s)))
}

/// Errors the code under test has reported, per simulated thread.
static REPORTED: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];

struct Reports;
impl tracing::Subscriber for Reports {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        *m.level() <= tracing::Level::INFO
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        // Anything an operator would be alarmed by.
        if *e.metadata().level() <= tracing::Level::WARN {
            if simrt::simulated() {
                REPORTED[simrt::who() % 16].fetch_add(1, SeqCst);
            }
        }
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

fn host() -> Host {
    Host {
        active: simrt::simulated,
        point: simrt::step,
        who: simrt::who,
        logged: simfs::not_logged,
        stdio: false,
    }
}

#[derive(Clone, Debug)]
struct Answer {
    thread: usize,
    step: usize,
    id: String,
    lazy: Option<usize>,
    /// Operations done before and after.
    from: u64,
    to: u64,
    /// Path and content.
    doc: Option<(String, String)>,
    panicked: Option<String>,
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    match e.downcast_ref::<String>() {
        Some(s) => s.clone(),
        None => e.downcast_ref::<&str>().unwrap_or(&"?").to_string(),
    }
}

fn now() -> u64 {
    simfs::inspect(|fs| fs.ops_done).unwrap_or(0)
}

fn hard(f: &Fault, op: &str) -> bool {
    match f.act {
        Act::Err(e) => !(e == EINTR && op == "read"),
        Act::Size(_) => true,
        _ => false,
    }
}

/// Where the document of this id is.
pub fn file_of(fs: &Fs, context: &str, ext: &str, id: &str) -> Vec<u8> {
    let mut p = dec(context);
    if !p.ends_with(b"/") {
        p.push(b'/');
    }
    p.extend(dec(id));
    p.push(b'.');
    p.extend(dec(ext));
    if p[0] != b'/' {
        let mut a = fs.cwd.map(|c| fs.dir_path(c)).unwrap_or_default();
        a.push(b'/');
        a.extend(p);
        p = a;
    }
    // Resolve as much of it as is there.
    let mut rest: Vec<&[u8]> = vec![];
    let mut at = &p[..];
    loop {
        if let Ok(f) = fs.find(None, at, true) {
            let mut full = fs.name_of(&f);
            for c in rest.into_iter().rev().filter(|c| !c.is_empty() && *c != b".") {
                if full != b"/" {
                    full.push(b'/');
                }
                full.extend(c);
            }
            return full;
        }
        let Some(cut) = at.iter().rposition(|b| *b == b'/') else { return p };
        rest.push(&at[cut + 1..]);
        at = if cut == 0 { b"/" } else { &at[..cut] };
        if rest.len() > 1000 {
            return p;
        }
    }
}

fn judge_load(s: &Load, fs: &Fs, ops: &[Op], all: &[Answer]) -> Option<Violation> {
    for a in all {
        let what = format!("thread {} step {}: loading {:?}", a.thread, a.step, a.id);
        if let Some(p) = &a.panicked {
            return Some(Violation::new("Panic", format!("{what}: panicked: {p}")));
        }
        let file = file_of(fs, &s.context, &s.ext, &a.id);
        let hurt = ops[a.from as usize..a.to as usize]
            .iter()
            .any(|o| o.fault.is_some_and(|f| hard(&s.fs.faults[f], &o.op)));
        // A lazy document may have been loaded by an earlier access.
        let since = match a.lazy {
            Some(l) => all.iter().filter(|b| b.lazy == Some(l)).map(|b| b.from).min().unwrap(),
            None => a.from,
        };
        let history: Vec<_> = fs.versions.iter().filter(|v| v.0 == file).collect();
        let allowed: Vec<&Vec<u8>> = history
            .iter()
            .enumerate()
            .filter(|(i, v)| v.1 <= a.to && history.get(i + 1).is_none_or(|n| n.1 >= since))
            .map(|(_, v)| &v.2)
            .collect();
        match &a.doc {
            Some((id, bytes)) => {
                if allowed.is_empty() {
                    return Some(Violation::new(
                        "Invented",
                        format!("{what}: got {bytes:?} though there is no file {:?}", enc(&file)),
                    ));
                }
                if !allowed.iter().any(|v| **v == dec(bytes)) {
                    return Some(Violation::new(
                        "Content",
                        format!("{what}: got {bytes:?}, the file held {:?}", allowed.iter().map(|v| enc(v)).collect::<Vec<_>>()),
                    ));
                }
                if *id != a.id {
                    return Some(Violation::new("Id", format!("{what}: got a document with id {id:?}")));
                }
            }
            None if !hurt && !allowed.is_empty() => {
                return Some(Violation::new("Lost", format!("{what}: got nothing, without any error")));
            }
            None => {}
        }
    }
    None
}

// ---------------------------------------------------------------- finding

/// What a directory holds, by the rules for finding documents.
pub struct Tree {
    /// Id to absolute path of the file.
    pub docs: BTreeMap<Vec<u8>, Vec<u8>>,
    /// The files that those among them which are symbolic links lead to.
    pub targets: BTreeMap<Vec<u8>, Vec<u8>>,
    /// Ids of symbolic links with a document's name that lead to no file: listed or not.
    pub maybe: BTreeSet<Vec<u8>>,
}

fn lines(b: &[u8]) -> Vec<Vec<u8>> {
    b.split(|c| *c == b'\n').filter(|l| !l.is_empty() && l[0] != b'#').map(|l| l.to_vec()).collect()
}

pub fn tree(fs: &Fs, context: &str, ext: &str) -> Tree {
    tree_with(fs, context, ext, true)
}

/// With or without the rules of the directories above the base.
pub fn tree_with(fs: &Fs, context: &str, ext: &str, rules_above: bool) -> Tree {
    use simfs::model::Kind;
    let mut t = Tree { docs: BTreeMap::new(), targets: BTreeMap::new(), maybe: BTreeSet::new() };
    let Ok(f) = fs.find(fs.cwd, &dec(context), true) else { return t };
    let Some(root) = f.ino else { return t };
    let mut suffix = vec![b'.'];
    suffix.extend(dec(ext));
    let rules = |dir: usize, file: &[u8]| -> Vec<Vec<u8>> {
        let Kind::Dir(d) = &fs.nodes[dir].kind else { return vec![] };
        match d.get(file).map(|i| &fs.nodes[*i].kind) {
            Some(Kind::File { data, .. }) => lines(data),
            _ => vec![],
        }
    };
    // Rules of the directories above, then downwards.
    let mut above = vec![];
    let mut at = root;
    while rules_above && at != simfs::model::ROOT {
        at = fs.nodes[at].parent;
        above.extend(rules(at, b".ignore"));
    }
    let git = matches!(&fs.nodes[root].kind, Kind::Dir(d) if d.contains_key(&b".git"[..]));
    let mut todo = vec![(root, vec![], above)];
    while let Some((ino, rel, mut ig)) = todo.pop() {
        let Kind::Dir(d) = &fs.nodes[ino].kind else { continue };
        ig.extend(rules(ino, b".ignore"));
        if git {
            ig.extend(rules(ino, b".gitignore"));
        }
        for (name, i) in d {
            if name.starts_with(b".") {
                continue;
            }
            let is_dir = matches!(fs.nodes[*i].kind, Kind::Dir(_));
            let ignored = ig.iter().any(|r| {
                r == name || is_dir && r.strip_suffix(b"/").is_some_and(|r| r == &name[..])
            });
            if ignored {
                continue;
            }
            let mut rel: Vec<u8> = rel.clone();
            if !rel.is_empty() {
                rel.push(b'/');
            }
            rel.extend(name);
            let id = rel.strip_suffix(&suffix[..]).map(|r| r.to_vec());
            match &fs.nodes[*i].kind {
                Kind::Dir(_) => todo.push((*i, rel, ig.clone())),
                Kind::File { .. } => {
                    if let Some(id) = id {
                        t.docs.insert(id, fs.path_of(ino, name));
                    }
                }
                Kind::Link(_) => {
                    let Some(id) = id else { continue };
                    match fs.find(Some(ino), name, true) {
                        Ok(f) if f.ino.is_some_and(|i| matches!(fs.nodes[i].kind, Kind::File { .. })) => {
                            t.targets.insert(id.clone(), fs.name_of(&f));
                            t.docs.insert(id, fs.path_of(ino, name));
                        }
                        _ => {
                            t.maybe.insert(id);
                        }
                    }
                }
            }
        }
    }
    t
}

/// Is this path at or below that directory?
pub fn below(p: &[u8], dir: &[u8]) -> bool {
    p == dir || p.strip_prefix(dir).is_some_and(|r| r.starts_with(b"/")) || dir == b"/"
}

#[derive(Clone, Debug)]
struct Listed {
    thread: usize,
    from: u64,
    to: u64,
    ids: Vec<String>,
    reported: u64,
    panicked: Option<String>,
    /// What loading each id gave.
    loads: Vec<Answer>,
}

/// Paths whose reading failed in these operations.
pub fn broken(faults: &[Fault], ops: &[Op]) -> BTreeSet<Vec<u8>> {
    ops.iter()
        .filter(|o| o.fault.is_some_and(|f| matches!(faults[f].act, Act::Err(_))))
        .map(|o| dec(&o.path))
        .collect()
}

fn judge_listing(s: &Listing, fs: &Fs, ops: &[Op], l: &Listed) -> Option<Violation> {
    let what = format!("listing {:?} with extension {:?}", s.context, s.ext);
    if let Some(p) = &l.panicked {
        return Some(Violation::new("Panic", format!("{what}: panicked: {p}")));
    }
    let mut t = tree(fs, &s.context, &s.ext);
    let mine: Vec<Op> = ops[l.from as usize..l.to as usize].iter().filter(|o| o.who == l.thread).cloned().collect();
    let broken = broken(&s.fs.faults, &mine);
    if mine.iter().any(|o| o.op == "stat" && o.fault.is_some()) {
        // The walker looks for rules above a base only when it can tell that it is a directory.
        let wide = tree_with(fs, &s.context, &s.ext, false);
        t.maybe.extend(wide.docs.into_keys().chain(wide.maybe).filter(|i| !t.docs.contains_key(i)));
    }
    let mut seen = BTreeSet::new();
    for id in &l.ids {
        let b = dec(id);
        if !t.docs.contains_key(&b) && !t.maybe.contains(&b) {
            return Some(Violation::new("Extra", format!("{what}: found {id:?}, which is no document there")));
        }
        if !seen.insert(b) {
            return Some(Violation::new("Twice", format!("{what}: found {id:?} twice")));
        }
    }
    let mut unread: BTreeSet<&Vec<u8>> = BTreeSet::new();
    for (id, file) in &t.docs {
        if seen.contains(id) {
            continue;
        }
        let why: Vec<&Vec<u8>> = broken.iter().filter(|b| below(file, b)).collect();
        if why.is_empty() {
            return Some(Violation::new("Missing", format!("{what}: did not find {:?} ({})", enc(id), enc(file))));
        }
        // Only the outermost failure need be met.
        unread.insert(why.iter().min_by_key(|w| w.len()).unwrap());
    }
    if l.reported < unread.len() as u64 {
        return Some(Violation::new(
            "Silent",
            format!(
                "{what}: documents below {:?} are missing, but only {} failures were reported",
                unread.iter().map(|u| enc(u)).collect::<Vec<_>>(),
                l.reported
            ),
        ));
    }
    for a in &l.loads {
        let Some(file) = t.docs.get(&dec(&a.id)) else { continue };
        let held = t.targets.get(&dec(&a.id)).unwrap_or(file);
        let want = fs.versions.iter().find(|v| v.0 == *held).map(|v| enc(&v.2));
        let got = a.doc.as_ref().map(|d| d.1.clone());
        if let Some(p) = &a.panicked {
            return Some(Violation::new("Panic", format!("loading {:?}: panicked: {p}", a.id)));
        }
        if got != want {
            return Some(Violation::new(
                "OtherFile",
                format!("{what}: {:?} was found as {}, but loading it gave {got:?}, not {want:?}", a.id, enc(file)),
            ));
        }
    }
    None
}

// ---------------------------------------------------------------- generation

const EXTS: &[&str] = &["md", "md", "md", "md", "txt", "m", "tar.md", "MD", "c++", "m.d", "[x", "", "a|b", "*", "m d", "x\u{e9}"];
const STEMS: &[&str] = &[
    "a", "b", "note", "v1", "v1.2", "v1.2.3", "a.b", "a.", "x..y", "sp ace", "\u{c3}\u{bc}n", "\u{ff}\u{fe}", "-C", "UPPER", "a.md", "tar", "x.tar", "(1)", "a+b", "q'uote\"", "%41", "~", "new\nline", "README", "index", "_x", "#a#", "0", "{a,b}", " lead", "trail ", "b\\s", "[a]", "*", "?", "node", "template", "draft",
];
const DIRS: &[&str] = &["d", "sub", "v1.2", "d.md", "notes.txt", "sp ace", "\u{ff}", "e", "x.tar", "target", "node_modules", "build", "tmp", "vendor", "archive", "_private", "~trash"];

/// Leftovers of other programs.
const STRAY: &[&str] = &["tmp", "lock", "bak", "log", "json", "part", "idx", "0"];

pub fn ext(rng: &mut Rng) -> String {
    rng.pick(EXTS).to_string()
}

pub fn content(rng: &mut Rng, n: &mut u64) -> String {
    *n += 1;
    let len = match rng.below(20) {
        0 => return String::new(),
        1 => rng.range(5_000, 20_000),
        2 => 32,
        3 => 8192,
        4..=8 => rng.range(40, 400),
        _ => rng.range(1, 30),
    } as usize;
    // Tells which file and which part it is.
    let mut s = String::new();
    while s.len() < len {
        s.push_str(&format!("<{n}:{}>", s.len()));
    }
    if rng.chance(0.2) {
        s.truncate(len);
        s = s.replace(':', "\u{fe}").replace('<', "\r\n").replace('>', "\u{0}");
    }
    // What some programs treat in a way of their own, at either end or inside.
    if rng.chance(0.3) {
        let mark = *rng.pick(MARKS);
        match rng.below(4) {
            0 | 1 => s.insert_str(0, mark),
            2 => s.push_str(mark),
            _ => s.insert_str(s.len() / 2 - (0..4).find(|i| s.is_char_boundary(s.len() / 2 - i)).unwrap_or(0), mark),
        }
    }
    s
}

const MARKS: &[&str] = &[
    "\u{ef}\u{bb}\u{bf}",
    "\u{fe}\u{ff}",
    "\u{ff}\u{fe}",
    "\n",
    "\n\n",
    "\r\n",
    "\r",
    " ",
    "\t",
    "\u{0}",
    "\u{0}\u{0}\u{0}\u{0}",
    "\u{1a}",
    "\u{c}",
    "\u{7f}",
    "\u{1b}[0m",
    "---\ntitle: x\n---\n",
    "#!/bin/sh\n",
    "<!-- x -->",
    "{{x}}",
    "%20",
    "\\n",
    "$HOME",
    "\u{e2}\u{80}\u{a8}",
    "\u{c3}\u{28}",
    "e\u{cc}\u{81}",
    "\u{ff}",
    "\u{c2}\u{a0}",
    "\u{1f}\u{8b}\u{8}",
];

pub fn dir_name(rng: &mut Rng) -> String {
    if rng.chance(0.1) {
        format!(".{}", rng.pick(DIRS))
    } else {
        rng.pick(DIRS).to_string()
    }
}

pub fn file_name(rng: &mut Rng, ext: &str) -> String {
    let stem = *rng.pick(STEMS);
    match rng.below(23) {
        20 => format!("{stem}.{}", rng.pick(STRAY)),
        21 => format!("{stem}.{ext}{}", rng.pick(&["~", ".tmp", ".swp", ".new", ".orig", ".lock", "#"])),
        22 => format!("{}{stem}.{ext}", rng.pick(&["#", "~", "tmp", ".#", "_"])),
        0 => format!(".{stem}.{ext}"),
        1 => stem.to_string(),
        2 => format!("{stem}.{ext}.bak"),
        3 => format!("{stem}x{ext}"),
        4 => format!("{stem}.x{ext}"),
        5 => format!("{stem}.{}", rng.pick(EXTS)),
        6 => format!("{stem}{ext}"),
        7 => format!("{stem}.{}", ext.to_uppercase()),
        8 => format!("{stem}.{ext}.{ext}"),
        9 => format!(".{ext}"),
        _ => format!("{stem}.{ext}"),
    }
}

/// A tree below `base`: directories and files.
pub fn grow(rng: &mut Rng, base: &str, ext: &str, spec: &mut Spec) -> Vec<String> {
    let mut n = 0;
    let mut dirs = vec![base.to_string()];
    for _ in 0..rng.below(6) {
        let d = format!("{}/{}", rng.pick(&dirs).clone(), dir_name(rng));
        if !dirs.contains(&d) {
            dirs.push(d);
        }
    }
    if rng.chance(0.04) {
        let mut d = base.to_string();
        let deep = if rng.chance(0.3) { rng.range(15, 70) } else { rng.range(9, 14) };
        for _ in 0..deep {
            d = format!("{d}/{}", rng.pick(&["d", "e", "d.md"]));
            dirs.push(d.clone());
        }
    }
    let short = dirs.len();
    if rng.chance(0.02) {
        // Long names, and paths longer than some buffers.
        let mut d = base.to_string();
        for _ in 0..rng.range(1, 12) {
            d = format!("{d}/{}", rng.pick(&["l", "n.", "\u{c3}\u{bc}"]).repeat(rng.range(60, 120) as usize));
            dirs.push(d.clone());
        }
    }
    for d in dirs.iter() {
        if rng.chance(0.3) || d == base {
            spec.files.push((d.clone(), None));
        }
    }
    let mut used: BTreeSet<String> = dirs.iter().cloned().collect();
    for _ in 0..rng.below(10) {
        let f = format!("{}/{}", rng.pick(&dirs), file_name(rng, ext));
        if f.ends_with('/') || !used.insert(f.clone()) {
            continue;
        }
        // Not a directory on somebody's way.
        if used.iter().any(|u| u.starts_with(&format!("{f}/"))) {
            continue;
        }
        spec.files.push((f, Some(content(rng, &mut n))));
    }
    if rng.chance(0.02) {
        let many = if rng.chance(0.15) { *rng.pick(&[300, 600, 1100]) } else { *rng.pick(&[20, 70, 150]) };
        for i in 0..many {
            let f = format!("{}/m{i}.{ext}", rng.pick(&dirs[..short]));
            if used.insert(f.clone()) {
                spec.files.push((f, Some(String::new())));
            }
        }
    }
    dirs
}

/// Links, further names and mounted file systems.
fn connect(rng: &mut Rng, dirs: &[String], base: &str, ext: &str, spec: &mut Spec) {
    for _ in 0..rng.range(1, 3) {
        let d = rng.pick(dirs).clone();
        let name = format!("{d}/{}{}", rng.pick(&["link", "other", "v2.1"]), rng.pick(&["", ".md", &format!(".{ext}"), &format!(".{ext}")]));
        let taken = |s: &Spec| s.files.iter().any(|f| below(f.0.as_bytes(), name.as_bytes())) || s.links.iter().chain(&s.aliases).any(|l| l.0 == name);
        if rng.chance(0.2) {
            if d != base && !spec.mounts.contains(&d) {
                spec.mounts.push(d);
            }
            continue;
        }
        if taken(spec) || spec.files.is_empty() {
            continue;
        }
        let file = rng.pick(&spec.files).0.clone();
        if rng.chance(0.4) {
            spec.aliases.push((name, file));
            continue;
        }
        let to = match rng.below(7) {
            0 => "nowhere".to_string(),
            1 => base.to_string(),
            2 => "..".into(),
            3 => match spec.links.last() {
                Some(l) => l.0.clone(),
                None => name.clone(),
            },
            // Next to it, or elsewhere.
            _ => match file.strip_prefix(&format!("{d}/")) {
                Some(f) if !f.is_empty() => f.to_string(),
                _ => file,
            },
        };
        spec.links.push((name, to));
    }
}

/// A large file's content, in short form.
fn big(rng: &mut Rng) -> String {
    let k = rng.range(14, 23);
    let len = (1u64 << k) + *rng.pick(&[0, 1, 2, 1000]) - *rng.pick(&[0, 1]);
    simfs::model::pattern(len, rng.below(200))
}

/// Ways to name the base directory, with a working directory.
pub fn name_base(rng: &mut Rng, base: &str) -> (String, String) {
    let rel = base.strip_prefix("/simfs/").unwrap();
    let cwd = "/simfs/work";
    match rng.below(12) {
        0 => (format!("{base}/"), cwd.into()),
        1 => (format!("/simfs//{rel}"), cwd.into()),
        2 => (format!("/simfs/./{rel}"), cwd.into()),
        3 => (rel.to_string(), TOP.into()),
        4 => (format!("./{rel}"), TOP.into()),
        5 => (format!("{rel}/"), TOP.into()),
        6 => (".".into(), base.into()),
        7 => (format!("../{rel}"), cwd.into()),
        8 => ("./".into(), base.into()),
        _ => (base.into(), cwd.into()),
    }
}

const BASES: &[&str] = &["/simfs/base", "/simfs/base", "/simfs/ba.se", "/simfs/.base", "/simfs/x.md", "/simfs/b/a", "/simfs/\u{c3}\u{a9}"];

pub fn listing_faults(rng: &mut Rng, spec: &mut Spec, base: &str) {
    let mut targets: Vec<String> = vec![base.to_string()];
    for (f, _) in &spec.files {
        // Every path on the way.
        let mut p = String::new();
        for c in f.split('/').filter(|c| !c.is_empty()) {
            p = format!("{p}/{c}");
            let n = c;
            let ignore_file = n.starts_with(".git") || n == ".ignore";
            if ignore_file {
                break;
            }
            if below(p.as_bytes(), base.as_bytes()) && !targets.contains(&p) {
                targets.push(p.clone());
            }
        }
    }
    for _ in 0..rng.range(1, 3) {
        let op = *rng.pick(&["opendir", "opendir", "readdir", "readdir", "stat"]);
        let p = rng.pick(&targets).clone();
        let p = if op != "stat" && rng.chance(0.6) {
            // A directory.
            let dirs: Vec<&String> = targets.iter().filter(|t| targets.iter().any(|u| u.starts_with(&format!("{t}/")))).collect();
            if dirs.is_empty() { p } else { rng.pick(&dirs).to_string() }
        } else {
            p
        };
        spec.faults.push(Fault {
            op: op.into(),
            path: Some(p),
            nth: if op == "readdir" { rng.below(5) } else { rng.below(2) * rng.below(2) },
            times: if rng.chance(0.5) { 1_000_000 } else { 1 },
            act: Act::Err(*rng.pick(&[EIO, EACCES, EACCES, EMFILE, ENOMEM, ESTALE])),
        });
    }
}

fn gen_load(rng: &mut Rng) -> Load {
    let base = rng.pick(BASES).to_string();
    let e = ext(rng);
    let mut fs = Spec { order: rng.next() >> 32, ..Default::default() };
    let dirs = grow(rng, &base, &e, &mut fs);
    if rng.chance(0.15) {
        connect(rng, &dirs, &base, &e, &mut fs);
    }
    // Ids of files that are there, and others.
    let mut ids: Vec<String> = fs
        .files
        .iter()
        .filter(|f| f.1.is_some())
        .filter_map(|(p, _)| p.strip_prefix(&format!("{base}/")))
        .filter_map(|p| p.strip_suffix(&format!(".{e}")))
        .filter(|i| !i.is_empty() && !i.ends_with('/'))
        .map(|s| s.to_string())
        .collect();
    let linked: Vec<String> = fs
        .links
        .iter()
        .chain(&fs.aliases)
        .filter_map(|(p, _)| Some(p.strip_prefix(&format!("{base}/"))?.strip_suffix(&format!(".{e}"))?.to_string()))
        .collect();
    ids.extend(linked.iter().cloned());
    let mut n = 500;
    if ids.is_empty() || rng.chance(0.3) {
        let s = rng.pick(STEMS).to_string();
        if !fs.files.iter().any(|f| below(f.0.as_bytes(), format!("{base}/{s}.{e}").as_bytes())) {
            fs.files.push((format!("{base}/{s}.{e}"), Some(content(rng, &mut n))));
            ids.push(s);
        }
    }
    for _ in 0..rng.below(3) {
        ids.push(rng.pick(STEMS).to_string());
        ids.push(format!("{}/{}", rng.pick(DIRS), rng.pick(STEMS)));
    }
    if rng.chance(0.02) {
        ids.push("n".repeat(rng.range(245, 300) as usize));
    }
    if rng.chance(0.06) {
        // Ways to name a file by a detour.
        for _ in 0..rng.range(1, 3) {
            let id = rng.pick(&ids).clone();
            let last = base.rsplit('/').next().unwrap_or("").to_string();
            let (first, rest) = id.split_once('/').unwrap_or((rng.pick(DIRS), &id));
            ids.push(match rng.below(6) {
                0 => format!("./{id}"),
                1 if !last.is_empty() => format!("../{last}/{id}"),
                2 => format!("../{id}"),
                3 => format!("{first}/../{id}"),
                4 => format!("{first}/../{rest}"),
                _ => format!("{first}/./{rest}"),
            });
        }
    }
    if rng.chance(0.15) {
        // Files somebody might take for a document that is not there.
        for _ in 0..rng.range(1, 4) {
            let id = rng.pick(&ids).clone();
            let (dir, name) = match id.rsplit_once('/') {
                Some((d, n)) => (format!("{base}/{d}"), n.to_string()),
                None => (base.clone(), id.clone()),
            };
            let f = match rng.below(10) {
                0 => format!("{dir}/{name}"),
                1 => format!("{dir}/{name}.{e}{}", rng.pick(&["~", ".bak", ".tmp", ".swp", ".gz", ".orig"])),
                2 => format!("{dir}/.{name}.{e}{}", rng.pick(&["", ".swp"])),
                3 => format!("{dir}/{name}/{}.{e}", rng.pick(&["index", "README", "main"])),
                4 => format!("{dir}/{name}.{}", rng.pick(&["txt", "markdown", "md", "MD"])),
                5 => format!("{dir}/{}.{e}", name.to_lowercase()),
                6 => format!("{dir}/{}.{e}", name.to_uppercase()),
                7 => format!("{base}/{name}.{e}"),
                8 => format!("{dir}/{}.{e}", name.trim()),
                _ => format!("{dir}/{}.{e}", name.split('.').next().unwrap_or("")),
            };
            let free = |f: &str| !fs.files.iter().any(|g| below(g.0.as_bytes(), f.as_bytes()) || g.1.is_some() && below(f.as_bytes(), g.0.as_bytes()));
            let linked = fs.links.iter().chain(&fs.aliases).any(|l| below(l.0.as_bytes(), f.as_bytes()) || below(f.as_bytes(), l.0.as_bytes()));
            if good_id(&f[1..]) && fits(&f) && free(&f) && !linked {
                fs.files.push((f, Some(content(rng, &mut n))));
                ids.push(id);
            }
        }
    }
    let (context, cwd) = name_base(rng, &base);
    fs.cwd = Some(cwd);
    let narrow = rng.chance(0.5);
    let few: Vec<String> = if narrow { (0..2).map(|_| rng.pick(&ids).clone()).collect() } else { ids };
    let large = rng.chance(0.01);
    if large {
        let p = format!("{base}/{}.{e}", rng.pick(&few));
        if let Some(f) = fs.files.iter_mut().find(|f| f.0 == p && f.1.is_some()) {
            f.1 = Some(big(rng));
        }
    }
    let lazy: Vec<String> = (0..rng.below(3)).map(|_| rng.pick(&few).clone()).collect();
    let threads = (0..if rng.chance(0.5) { 1 } else { rng.range(2, 3) })
        .map(|_| {
            (0..rng.range(1, 4))
                .map(|_| {
                    if !lazy.is_empty() && rng.chance(0.5) {
                        Step::Deref(rng.below(lazy.len() as u64) as usize)
                    } else {
                        Step::Find(rng.pick(&few).clone())
                    }
                })
                .collect()
        })
        .collect();
    if rng.chance(0.75) {
        for _ in 0..rng.range(1, 4) {
            let id = rng.pick(&few).clone();
            let p = format!("{base}/{id}.{e}");
            let path = if rng.chance(0.7) { Some(p.clone()) } else { None };
            let (op, act) = match rng.below(10) {
                0 => ("open", Act::Err(*rng.pick(&[EIO, EACCES, EMFILE, ENOMEM, ESTALE]))),
                1 | 2 => ("read", Act::Err(*rng.pick(&[EIO, EIO, ESTALE, ENOMEM]))),
                3 | 4 => ("read", Act::Err(EINTR)),
                5 | 6 => ("read", Act::Short(*rng.pick(&[1, 1, 2, 7, 31, 32, 100]))),
                7 => ("stat", Act::Size(*rng.pick(&[0, 0, 1, 10, 1000, 50_000]))),
                8 => ("stat", Act::Err(EIO)),
                _ => (*rng.pick(&["open", "stat", "read"]), Act::Replace(content(rng, &mut n))),
            };
            if matches!(act, Act::Replace(_)) && linked.contains(&id) {
                continue;
            }
            let path = if matches!(act, Act::Replace(_)) { Some(p) } else { path };
            let times = match act {
                Act::Err(e) if e != EINTR && rng.chance(0.2) => 1_000_000,
                Act::Short(_) if rng.chance(0.5) => 1_000_000,
                Act::Size(_) if rng.chance(0.5) => 1_000_000,
                Act::Replace(_) => 1,
                _ => rng.range(1, 4),
            };
            // Not too many steps.
            let act = match act {
                Act::Short(n) if large => Act::Short(n.max(2) * 10_000),
                a => a,
            };
            fs.faults.push(Fault { op: op.into(), path, nth: rng.below(4) * rng.below(2), times, act });
        }
    }
    let mut threads: Vec<Vec<Step>> = threads;
    if !large && rng.chance(0.03) {
        // Few descriptors, and many loads: none may be lost.
        fs.descriptors = 12;
        threads.truncate(2);
        for steps in &mut threads {
            for _ in 0..rng.range(14, 30) {
                steps.push(Step::Find(rng.pick(&few).clone()));
            }
        }
        for f in &mut fs.faults {
            if f.op == "read" && matches!(f.act, Act::Err(_)) {
                f.times = rng.range(10, 40);
            }
            // Not too many steps.
            if matches!(f.act, Act::Short(_)) {
                f.times = f.times.min(100);
            }
        }
    }
    Load { fs, context, ext: e, lazy, threads }
}

fn gen_listing(rng: &mut Rng) -> Listing {
    let base = rng.pick(BASES).to_string();
    let e = ext(rng);
    let mut fs = Spec { order: rng.next() >> 32, untyped: rng.chance(0.3), ..Default::default() };
    let dirs = grow(rng, &base, &e, &mut fs);
    // Empty ids are no ids, and what ends in a slash is no name.
    let rules = |rng: &mut Rng| -> String {
        let mut r = String::new();
        for _ in 0..rng.range(1, 3) {
            match rng.below(4) {
                0 => r.push_str("# comment\n"),
                1 => r.push_str(&format!("{}/\n", rng.pick(&["d", "sub", "v1.2", "e"]))),
                2 => r.push_str(&format!("{}\n", rng.pick(&["d", "note.md", "a.md", "v1.md", "v1.2.md"]))),
                _ => r.push_str(&format!("{}.md\n", rng.pick(&["a", "b", "note", "v1", "a.b"]))),
            }
        }
        r
    };
    if rng.chance(0.25) {
        let d = if rng.chance(0.2) { TOP.to_string() } else { rng.pick(&dirs).clone() };
        fs.files.push((format!("{d}/.ignore"), Some(rules(rng))));
    }
    if rng.chance(0.2) {
        let d = rng.pick(&dirs).clone();
        fs.files.push((format!("{d}/.gitignore"), Some(rules(rng))));
        if rng.chance(0.6) {
            fs.files.push((format!("{base}/.git/HEAD"), Some("ref: x\n".into())));
        }
    }
    if rng.chance(0.25) {
        connect(rng, &dirs, &base, &e, &mut fs);
    }
    if rng.chance(0.45) {
        listing_faults(rng, &mut fs, &base);
    }
    if rng.chance(0.01) {
        if let Some(f) = fs.files.iter_mut().find(|f| f.1.is_some() && f.0.ends_with(&format!(".{e}"))) {
            f.1 = Some(big(rng));
        }
    }
    let (context, cwd) = name_base(rng, &base);
    fs.cwd = Some(cwd);
    Listing { fs, context, ext: e, threads: if rng.chance(0.1) { 2 } else { 1 } }
}

// ---------------------------------------------------------------- running

fn ask(repo: &Arc<LocalDocumentRepository>, id: &str) -> Result<Option<(String, String)>, String> {
    let id = path(id);
    catch_unwind(AssertUnwindSafe(|| {
        lib(|| repo.find_by_id(&id)).map(|d| (enc(d.id().as_os_str().as_bytes()), enc(&d.bytes)))
    }))
    .map_err(panic_text)
}

fn deref(doc: &LazyDocument<LocalDocumentRepository>) -> Result<Option<(String, String)>, String> {
    catch_unwind(AssertUnwindSafe(|| {
        lib(|| doc.try_deref()).map(|d| (enc(d.id().as_os_str().as_bytes()), enc(&d.bytes)))
    }))
    .map_err(panic_text)
}

pub fn count_faults(stats: &mut Stats, faults: &[Fault], ops: &[Op]) -> bool {
    let mut any = false;
    for o in ops {
        if let Some(f) = o.fault {
            any = true;
            let k = match &faults[f].act {
                Act::Err(EINTR) => format!("fault.{}_interrupted", o.op),
                Act::Err(_) => format!("fault.{}_error", o.op),
                Act::Short(_) => format!("fault.{}_short", o.op),
                Act::Size(_) => "fault.size_misreported".into(),
                Act::Replace(_) => "fault.file_replaced".into(),
                Act::Kill => "fault.kill".into(),
            };
            stats.add(&k, 1);
        }
    }
    any
}

fn sane(fs: &Spec) -> Result<(), String> {
    if fs.files.iter().any(|f| !f.0.starts_with("/simfs")) || fs.links.iter().chain(&fs.aliases).any(|f| !f.0.starts_with("/simfs/")) {
        return Err("path".into());
    }
    if !fs.files.iter().all(|f| fits(&f.0)) {
        return Err("path".into());
    }
    if !fs.cwd.as_ref().is_some_and(|c| c.starts_with("/simfs")) {
        return Err("cwd".into());
    }
    Ok(())
}

/// No file has a name longer than file systems allow.
fn fits(p: &str) -> bool {
    let p = dec(p);
    p.len() < 3500 && p.split(|b| *b == b'/').all(|c| c.len() < 256)
}

fn good_id(i: &str) -> bool {
    !i.is_empty()
        && !i.contains('\0')
        && !i.split('/').any(|c| c.is_empty())
        && !i.rsplit('/').next().is_some_and(|c| c == "." || c == "..")
}

fn repository(context: &str, ext: &str) -> Option<Arc<LocalDocumentRepository>> {
    let extension = String::from_utf8(dec(ext)).ok()?;
    Some(Arc::new(LocalDocumentRepository { context: path(context), extension }))
}

impl FsFamily {
    fn load(&self, case: &Case, stats: &mut Stats) -> Result<Outcome, String> {
        let mut s: Load = serde_json::from_value(case.scenario.clone()).map_err(|e| e.to_string())?;
        sane(&s.fs)?;
        if s.threads.is_empty() || s.threads.len() > 6 || s.context.is_empty() {
            return Err("threads".into());
        }
        for st in s.threads.iter().flatten() {
            match st {
                Step::Find(i) if !good_id(i) => return Err("id".into()),
                Step::Deref(l) if *l >= s.lazy.len() => return Err("document".into()),
                _ => {}
            }
        }
        if !s.lazy.iter().all(|i| good_id(i)) {
            return Err("id".into());
        }
        if s.fs.faults.iter().any(|f| matches!(f.act, Act::Kill | Act::Err(EINTR) if f.op != "read" || f.act == Act::Kill)) {
            return Err("fault".into());
        }
        if repository(&s.context, &s.ext).is_none() {
            s.ext = "md".into();
        }
        s.fs.clock = case.clock;
        let repo = repository(&s.context, &s.ext).unwrap();
        let build = LazyDocument::builder(repo.clone());
        let lazy: Arc<Vec<_>> = Arc::new(s.lazy.iter().map(|i| build(path(i))).collect());
        simfs::install(host(), Fs::new(&s.fs));
        let out: Arc<Mutex<Vec<Answer>>> = Arc::default();
        let bodies = s
            .threads
            .iter()
            .enumerate()
            .map(|(t, steps)| {
                let (repo, lazy, out, steps, names) = (repo.clone(), lazy.clone(), out.clone(), steps.clone(), s.lazy.clone());
                Box::new(move || {
                    for (n, st) in steps.iter().enumerate() {
                        simrt::point();
                        let from = now();
                        let (id, l, r) = match st {
                            Step::Find(i) => (i.clone(), None, ask(&repo, i)),
                            Step::Deref(l) => (names[*l].clone(), Some(*l), deref(&lazy[*l])),
                        };
                        let to = now();
                        let panicked = r.as_ref().err().cloned();
                        out.lock().unwrap().push(Answer {
                            thread: t,
                            step: n,
                            id,
                            lazy: l,
                            from,
                            to,
                            doc: r.unwrap_or(None),
                            panicked,
                        });
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let r = simrt::run(&config(&case.sched, 0), bodies);
        let fs = simfs::remove().unwrap();
        let tainted = !r.clean();
        stats.runs += 1;
        count_run(stats, &r);
        let mut all = std::mem::take(&mut *out.lock().unwrap());
        all.sort_by_key(|a| (a.thread, a.step));
        let mut trace: Vec<String> = fs.ops.iter().map(|o| format!("{o:?}")).collect();
        trace.extend(all.iter().map(|a| format!("{a:?}")));
        let hash = trace.iter().fold(r.hash ^ r.steps, |h, s| hash_str(h, s));
        let faulty = count_faults(stats, &s.fs.faults, &fs.ops);
        for a in &all {
            stats.add(if a.doc.is_some() { "loaded" } else { "not_loaded" }, 1);
        }
        if faulty || r.preemptions + r.blocked > 0 {
            stats.nontrivial += 1;
            stats.seen.insert(hash);
        }
        let violation = match r.end {
            End::Finished => judge_load(&s, &fs, &fs.ops, &all),
            e => Some(Violation::new("Stuck", format!("{e:?}: threads {:?} never finish", r.unfinished))),
        };
        Ok(Outcome { violation, hash, decisions: vec![r.decisions], trace, tainted, off_topic: None })
    }

    fn listing(&self, case: &Case, stats: &mut Stats) -> Result<Outcome, String> {
        let mut s: Listing = serde_json::from_value(case.scenario.clone()).map_err(|e| e.to_string())?;
        sane(&s.fs)?;
        if s.threads == 0 || s.threads > 4 || s.context.is_empty() {
            return Err("threads".into());
        }
        let allowed = ["opendir", "readdir", "stat"];
        if s.fs.faults.iter().any(|f| {
            !matches!(f.act, Act::Err(e) if e != EINTR)
                || !allowed.contains(&f.op.as_str())
                || f.path.as_ref().is_none_or(|p| p.contains("/.git") || p.ends_with("/.ignore"))
        }) {
            return Err("fault".into());
        }
        if repository(&s.context, &s.ext).is_none() {
            s.ext = "md".into();
        }
        if s.ext.contains('/') {
            return Err("extension".into());
        }
        s.fs.clock = case.clock;
        let repo = repository(&s.context, &s.ext).unwrap();
        simfs::install(host(), Fs::new(&s.fs));
        for r in &REPORTED {
            r.store(0, SeqCst);
        }
        let out: Arc<Mutex<Vec<Listed>>> = Arc::default();
        let bodies = (0..s.threads)
            .map(|t| {
                let (repo, out) = (repo.clone(), out.clone());
                Box::new(move || {
                    let from = now();
                    let r = catch_unwind(AssertUnwindSafe(|| lib(|| repo.all().collect::<Vec<_>>())));
                    let to = now();
                    let reported = REPORTED[t].load(SeqCst);
                    let panicked = r.as_ref().err().map(|_| "while listing".to_string());
                    let docs = r.unwrap_or_default();
                    let ids: Vec<String> = docs.iter().map(|d| enc(d.id().as_os_str().as_bytes())).collect();
                    // The faults are over.
                    simfs::inspect(|fs| fs.faults.iter_mut().for_each(|f| f.times = 0));
                    let mut loads = vec![];
                    for (n, d) in docs.iter().enumerate() {
                        let from = now();
                        for r in [ask(&repo, &ids[n]), deref(d)] {
                            loads.push(Answer {
                                thread: t,
                                step: n,
                                id: ids[n].clone(),
                                lazy: None,
                                from,
                                to: now(),
                                panicked: r.as_ref().err().cloned(),
                                doc: r.unwrap_or(None),
                            });
                        }
                    }
                    out.lock().unwrap().push(Listed { thread: t, from, to, ids, reported, panicked, loads });
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let r = simrt::run(&config(&case.sched, 0), bodies);
        let fs = simfs::remove().unwrap();
        let tainted = !r.clean();
        stats.runs += 1;
        count_run(stats, &r);
        let mut all = std::mem::take(&mut *out.lock().unwrap());
        all.sort_by_key(|a| a.thread);
        let mut trace: Vec<String> = fs.ops.iter().map(|o| format!("{o:?}")).collect();
        trace.extend(all.iter().map(|a| format!("{a:?}")));
        let hash = trace.iter().fold(r.hash ^ r.steps, |h, s| hash_str(h, s));
        let faulty = count_faults(stats, &s.fs.faults, &fs.ops);
        for a in &all {
            stats.add("listed", a.ids.len() as u64);
            stats.add("failures_reported", a.reported);
        }
        if faulty || all.iter().any(|a| a.ids.len() > 1) {
            stats.nontrivial += 1;
            stats.seen.insert(hash);
        }
        let violation = match r.end {
            End::Finished => all.iter().find_map(|l| judge_listing(&s, &fs, &fs.ops, l)),
            e => Some(Violation::new("Stuck", format!("{e:?}: threads {:?} never finish", r.unfinished))),
        };
        Ok(Outcome { violation, hash, decisions: vec![r.decisions], trace, tainted, off_topic: None })
    }
}

impl Family for FsFamily {
    fn generate(&self, property: &str, rng: &mut Rng) -> serde_json::Value {
        match property {
            "C13" => serde_json::to_value(gen_load(rng)),
            _ => serde_json::to_value(gen_listing(rng)),
        }
        .unwrap()
    }

    fn execute(&self, case: &Case, stats: &mut Stats) -> Result<Outcome, String> {
        match case.property.as_str() {
            "C13" => self.load(case, stats),
            _ => self.listing(case, stats),
        }
    }

    fn prepare(&self) {
        simfs::quiet_with(simfs::Quiet { enter: simrt::quiet, leave: simrt::restore });
        if tracing::subscriber::set_global_default(Reports).is_err() {
            return;
        }
        // Whatever initialises once does so here.
        simfs::install(host(), Fs::new(&Spec {
            files: vec![("/simfs/x.md".into(), Some("x".into())), ("/simfs/d/y.md".into(), Some("y".into()))],
            cwd: Some(TOP.into()),
            ..Default::default()
        }));
        let body = Box::new(|| {
            for context in ["/simfs/d", "/simfs/x.md", "/simfs/none"] {
                let repo = repository(context, "md").unwrap();
                for d in repo.all() {
                    let _ = ask(&repo, &enc(d.id().as_os_str().as_bytes()));
                    let _ = deref(&d);
                }
                let _ = ask(&repo, "none");
            }
        });
        simrt::run(&config(&Sched::Decisions(vec![]), 0), vec![body]);
        simfs::remove();
    }

    fn budget(&self, _property: &str, thorough: bool) -> Budget {
        if thorough {
            Budget { runs: 10_000_000, seconds: 600 }
        } else {
            Budget { runs: 250_000, seconds: 70 }
        }
    }

    fn info(&self, property: &str) -> Info {
        Info {
            rule: match property {
                "C13" => "A case is a directory tree, an extension, a way of naming the base directory, 1-3 threads loading documents by id and through shared lazy documents, faults of open, stat and read, and a schedule; non-trivial if a fault was hit or threads were preempted or waited inside the code; distinct by operations, answers and scheduling decisions.",
                _ => "A case is a directory tree with hidden and ignored parts and links, an extension, a way of naming the base directory, an order of reading directories, and faults of opendir, readdir and stat; the documents found are then loaded without faults; non-trivial if a fault was hit or several documents were found; distinct by operations and answers.",
            },
            real: &["plotline_cli::repository, plotline::document::lazy", "the ignore, walkdir and regex crates, std::fs (down to the C library calls)"],
            stub: &["the C library's file functions (an in-memory file system)", "futex(2)", "the tracing subscriber"],
            assumptions: &[
                "ids are relative paths of ordinary names",
                "files are replaced atomically, not rewritten in place, while they are read",
                "ignore files are readable, and hold plain names only",
            ],
        }
    }
}
