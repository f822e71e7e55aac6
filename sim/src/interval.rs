//! The index of intervals (C18), shared by threads and interrupted by panics of the intervals' code.

use crate::case::*;
use crate::schema::{config, count_run};
use plotline_interval::{Interval, IntervalSearchTree};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::rng::Rng;
use simrt::{lib, user, End};
use std::cell::Cell;
use std::cmp::Ordering;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::{Arc, Mutex, RwLock};

pub struct IndexFamily;

// ---------------------------------------------------------------- intervals

thread_local! {
    /// Calls of the intervals' functions before one panics, if one is to.
    static FUSE: Cell<u32> = const { Cell::new(0) };
    static BLOWN: Cell<bool> = const { Cell::new(false) };
}

struct Planned;

/// A function of the interval's is called.
fn called() {
    user(|| {
        let n = FUSE.get();
        if n > 0 {
            FUSE.set(n - 1);
            if n == 1 {
                BLOWN.set(true);
                panic_any(Planned);
            }
        }
    })
}

#[derive(Clone, Copy, Debug)]
struct Point(i32);

impl PartialEq for Point {
    fn eq(&self, o: &Self) -> bool {
        called();
        self.0 == o.0
    }
}
impl Eq for Point {}
impl PartialOrd for Point {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Point {
    fn cmp(&self, o: &Self) -> Ordering {
        called();
        self.0.cmp(&o.0)
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialOrd, Ord, Eq)]
struct Span {
    lo: i32,
    hi: i32,
    id: u16,
}

impl Span {
    fn same(&self, o: &Self) -> bool {
        (self.lo, self.hi, self.id) == (o.lo, o.hi, o.id)
    }
    fn meets(&self, o: &Self) -> bool {
        self.lo <= o.hi && o.lo <= self.hi
    }
}
impl PartialEq for Span {
    fn eq(&self, o: &Self) -> bool {
        called();
        self.same(o)
    }
}
impl Interval for Span {
    type Bound = Point;
    fn lo(&self) -> Point {
        called();
        Point(self.lo)
    }
    fn hi(&self) -> Point {
        called();
        Point(self.hi)
    }
}

// ---------------------------------------------------------------- scenarios

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Which {
    This(Span),
    /// The n-th of those stored.
    Stored(u16),
    /// With the bounds of the n-th, but another.
    Like(u16),
    /// Beginning where the n-th does, of another length.
    From(u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
    /// `fuse`: the call of the interval's functions that panics, counted from one.
    Insert { what: Which, fuse: u32 },
    Delete { what: Which, fuse: u32 },
    /// `stop`: the interval visited at which the visitor panics.
    Visit { what: Which, fuse: u32, stop: u32 },
    Meets { what: Which, fuse: u32 },
    /// Asks for every point that matters.
    Sweep,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scenario {
    init: Vec<Span>,
    threads: Vec<Vec<Op>>,
    /// Instead of the above: so many intervals in order.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    tall: Option<Tall>,
}

/// Many intervals inserted in order, on a thread with a stack of half a mebibyte.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tall {
    count: u32,
    descending: bool,
}

/// An interval of one point.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Dot(u32);

impl Interval for Dot {
    type Bound = u32;
    fn lo(&self) -> u32 {
        self.0
    }
    fn hi(&self) -> u32 {
        self.0
    }
}

impl Tall {
    fn work(&self) -> Result<(), String> {
        let n = self.count;
        let mut tree = IntervalSearchTree::<Dot>::default();
        for i in 0..n {
            tree.insert(Dot(if self.descending { n - i } else { i + 1 }));
        }
        for gone in [false, true] {
            for at in [0, 1, n / 2, n, n + 1] {
                let expected = (at >= 1 && at <= n && !(gone && at == n / 2)) as u32;
                let mut found = 0;
                tree.for_each_intersection(&Dot(at), |d| found += if d.0 == at { 1 } else { 1000 });
                if found != expected || tree.intersects(&Dot(at)) != (expected == 1) {
                    return Err(format!("of {n} intervals in order, {found} were found at {at}"));
                }
            }
            tree.delete(&Dot(n / 2));
        }
        drop(tree);
        Ok(())
    }

    /// In a process of its own, which may not survive it.
    fn run(&self) -> Option<Violation> {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let code = unsafe {
                let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &none);
                libc::close(2);
                libc::alarm(60);
                let me = self.clone();
                match std::thread::Builder::new().stack_size(512 << 10).spawn(move || me.work()).map(|t| t.join()) {
                    Ok(Ok(Ok(()))) => 0,
                    Ok(Ok(Err(_))) => 3,
                    Ok(Err(_)) => 4,
                    Err(_) => 0,
                }
            };
            unsafe { libc::_exit(code) };
        }
        if pid < 0 {
            return None;
        }
        let mut st = 0;
        while unsafe { libc::waitpid(pid, &mut st, 0) } != pid {}
        if libc::WIFSIGNALED(st) {
            return match libc::WTERMSIG(st) {
                libc::SIGSEGV | libc::SIGBUS | libc::SIGABRT => {
                    let m = format!("{} intervals in order: the stack overflows", self.count);
                    let finding = (self.count > 1000).then(|| "recursion-overflows-stack".into());
                    Some(Violation { finding, ..Violation::new("Overflow", m) })
                }
                _ => None,
            };
        }
        match libc::WEXITSTATUS(st) {
            0 => None,
            4 => Some(Violation::new("Tall", format!("{} intervals in order: panicked", self.count))),
            _ => Some(Violation::new("Tall", format!("{} intervals in order: wrong answers", self.count))),
        }
    }
}

struct Held {
    tree: IntervalSearchTree<Span>,
    /// What it has to hold, in order.
    bag: Vec<Span>,
}

#[derive(Default)]
struct Log {
    trace: Vec<(u64, String)>,
    wrong: Option<(String, String)>,
    counts: Vec<&'static str>,
}

struct Ctl {
    held: RwLock<Held>,
    log: Mutex<Log>,
}

impl Ctl {
    fn note(&self, what: String) {
        let e = simrt::event();
        self.log.lock().unwrap().trace.push((e, what));
    }
    fn wrong(&self, class: &str, message: String) {
        let mut l = self.log.lock().unwrap();
        if l.wrong.is_none() {
            l.wrong = Some((class.into(), message));
        }
    }
    fn count(&self, what: &'static str) {
        self.log.lock().unwrap().counts.push(what);
    }
}

enum Ended<R> {
    Well(R),
    /// As planned.
    Cut,
    Panicked,
}

fn run<R>(fuse: u32, f: impl FnOnce() -> R) -> Ended<R> {
    FUSE.set(fuse);
    BLOWN.set(false);
    let r = catch_unwind(AssertUnwindSafe(|| lib(f)));
    FUSE.set(0);
    match r {
        Ok(r) => Ended::Well(r),
        Err(p) if p.is::<Planned>() => Ended::Cut,
        Err(_) => Ended::Panicked,
    }
}

fn sorted(mut v: Vec<Span>) -> Vec<Span> {
    v.sort();
    v
}

fn alike(a: &[Span], b: &[Span]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.same(b))
}

fn visit(tree: &IntervalSearchTree<Span>, q: &Span, fuse: u32, stop: u32) -> Ended<Vec<Span>> {
    let mut seen = Vec::new();
    let r = run(fuse, || {
        tree.for_each_intersection(q, |s| {
            user(|| {
                seen.push(*s);
                if stop > 0 && seen.len() == stop as usize {
                    panic_any(Planned);
                }
            })
        })
    });
    match r {
        Ended::Well(()) => Ended::Well(sorted(seen)),
        Ended::Cut => Ended::Cut,
        Ended::Panicked => Ended::Panicked,
    }
}

const ALL: Span = Span { lo: i32::MIN, hi: i32::MAX, id: 0 };

impl Which {
    fn pick(&self, bag: &[Span]) -> Option<Span> {
        let nth = |n: &u16| (!bag.is_empty()).then(|| bag[*n as usize % bag.len()]);
        match self {
            Which::This(s) => Some(*s),
            Which::Stored(n) => nth(n),
            Which::Like(n) => nth(n).map(|s| Span { id: s.id ^ 0x4000, ..s }),
            Which::From(n, l) => nth(n).map(|s| Span { hi: s.lo.saturating_add(*l as i32), ..s }),
        }
    }
}

impl Ctl {
    /// Everything in the tree.
    fn all(&self, h: &Held) -> Option<Vec<Span>> {
        match visit(&h.tree, &ALL, 0, 0) {
            Ended::Well(v) => Some(v),
            _ => {
                self.wrong("Panic", "asking for all intervals panicked".into());
                None
            }
        }
    }

    fn answers(&self, h: &Held, q: &Span) {
        let want: Vec<Span> = h.bag.iter().filter(|s| s.meets(q)).copied().collect();
        match visit(&h.tree, q, 0, 0) {
            Ended::Well(got) if alike(&got, &want) => {}
            Ended::Well(got) => self.wrong("Answer", format!("holding {:?}, asked for {q:?}: visited {got:?}, not {want:?}", h.bag)),
            _ => self.wrong("Panic", format!("asking for {q:?} panicked")),
        }
        match run(0, || h.tree.intersects(q)) {
            Ended::Well(b) if b == !want.is_empty() => {}
            Ended::Well(b) => self.wrong("Answer", format!("holding {:?}, asked whether any meets {q:?}: {b}", h.bag)),
            _ => self.wrong("Panic", format!("asking whether any meets {q:?} panicked")),
        }
    }

    fn write<R>(&self, f: impl FnOnce(&mut Held) -> R) -> R {
        let mut h = lib(|| self.held.write()).unwrap_or_else(|e| e.into_inner());
        let r = f(&mut h);
        lib(|| drop(h));
        r
    }

    fn read<R>(&self, f: impl FnOnce(&Held) -> R) -> R {
        let h = lib(|| self.held.read()).unwrap_or_else(|e| e.into_inner());
        let r = f(&h);
        lib(|| drop(h));
        r
    }

    /// The tree may hold any of these now.
    fn settle(&self, h: &mut Held, ways: Vec<Vec<Span>>, after: &str) {
        let Some(got) = self.all(h) else { return };
        match ways.into_iter().find(|w| alike(w, &got)) {
            Some(w) => h.bag = w,
            None => self.wrong("Held", format!("holding {:?}, after {after}: {got:?}", h.bag)),
        }
    }

    fn thread(&self, t: usize, ops: &[Op]) {
        for op in ops {
            match op {
                Op::Insert { what, fuse } => self.write(|h| {
                    let Some(s) = what.pick(&h.bag) else { return };
                    let mut with = h.bag.clone();
                    with.insert(with.partition_point(|o| *o <= s), s);
                    let r = run(*fuse, || h.tree.insert(s));
                    self.note(format!("thread {t}: insert {s:?}{}", ended(&r)));
                    match r {
                        Ended::Well(()) => h.bag = with,
                        Ended::Cut => {
                            self.count("fault.insert_panics");
                            let was = h.bag.clone();
                            self.settle(h, vec![was, with], &format!("a panic while inserting {s:?}"))
                        }
                        Ended::Panicked => self.wrong("Panic", format!("inserting {s:?} panicked")),
                    }
                }),
                Op::Delete { what, fuse } => self.write(|h| {
                    let Some(s) = what.pick(&h.bag) else { return };
                    let none: Vec<Span> = h.bag.iter().filter(|o| !o.same(&s)).copied().collect();
                    let mut ways = vec![none];
                    if let Some(at) = h.bag.iter().position(|o| o.same(&s)) {
                        // Of several that are equal, one.
                        let mut w = h.bag.clone();
                        w.remove(at);
                        ways.push(w);
                    }
                    let r = run(*fuse, || h.tree.delete(&s));
                    self.note(format!("thread {t}: delete {s:?}{}", ended(&r)));
                    match r {
                        Ended::Well(()) => self.settle(h, ways, &format!("deleting {s:?}")),
                        Ended::Cut => {
                            self.count("fault.delete_panics");
                            ways.push(h.bag.clone());
                            self.settle(h, ways, &format!("a panic while deleting {s:?}"))
                        }
                        Ended::Panicked => self.wrong("Panic", format!("deleting {s:?} panicked")),
                    }
                }),
                Op::Visit { what, fuse, stop } => self.read(|h| {
                    let Some(q) = what.pick(&h.bag) else { return };
                    let want: Vec<Span> = h.bag.iter().filter(|s| s.meets(&q)).copied().collect();
                    let r = visit(&h.tree, &q, *fuse, *stop);
                    self.note(format!("thread {t}: visit {q:?}{}", ended(&r)));
                    match r {
                        Ended::Well(got) if alike(&got, &want) => {}
                        Ended::Well(got) => {
                            self.wrong("Answer", format!("holding {:?}, asked for {q:?}: visited {got:?}, not {want:?}", h.bag))
                        }
                        Ended::Cut => self.count("fault.visit_panics"),
                        Ended::Panicked => self.wrong("Panic", format!("visiting {q:?} panicked")),
                    }
                }),
                Op::Meets { what, fuse } => self.read(|h| {
                    let Some(q) = what.pick(&h.bag) else { return };
                    let want = h.bag.iter().any(|s| s.meets(&q));
                    let r = run(*fuse, || h.tree.intersects(&q));
                    self.note(format!("thread {t}: meets {q:?}{}", ended(&r)));
                    match r {
                        Ended::Well(b) if b == want => {}
                        Ended::Well(b) => self.wrong("Answer", format!("holding {:?}, asked whether any meets {q:?}: {b}", h.bag)),
                        Ended::Cut => self.count("fault.query_panics"),
                        Ended::Panicked => self.wrong("Panic", format!("asking whether any meets {q:?} panicked")),
                    }
                }),
                Op::Sweep => self.read(|h| {
                    self.note(format!("thread {t}: sweep of {}", h.bag.len()));
                    let Some(got) = self.all(h) else { return };
                    if !alike(&got, &h.bag) {
                        self.wrong("Held", format!("holding {:?}, asked for all: {got:?}", h.bag));
                    }
                    let mut points: Vec<i32> =
                        h.bag.iter().flat_map(|s| [s.lo, s.lo.saturating_sub(1), s.hi, s.hi.saturating_add(1)]).collect();
                    points.sort();
                    points.dedup();
                    let every = 1 + points.len() / (1500 / (h.bag.len() + 1)).clamp(4, 30);
                    for (i, p) in points.iter().enumerate().filter(|(i, _)| i % every == 0) {
                        self.answers(h, &Span { lo: *p, hi: *p, id: 0 });
                        if let Some(e) = points.get(i + 1 + i % 3) {
                            self.answers(h, &Span { lo: *p, hi: *e, id: 0 });
                        }
                    }
                }),
            }
            if self.log.lock().unwrap().wrong.is_some() {
                return;
            }
        }
    }
}

fn ended<R>(r: &Ended<R>) -> &'static str {
    match r {
        Ended::Well(_) => "",
        Ended::Cut => ", cut short by a panic",
        Ended::Panicked => " panicked",
    }
}

// ---------------------------------------------------------------- generation

struct Gen {
    wide: bool,
    points: i32,
    longest: i32,
    ids: u64,
    faults: f64,
    /// Ever further to the right, or to the left.
    drift: i32,
    at: i32,
}

impl Gen {
    fn span(&mut self, rng: &mut Rng) -> Span {
        let id = rng.below(self.ids) as u16;
        if self.wide && rng.chance(0.3) {
            let (a, b) = (rng.next() as i32, rng.next() as i32);
            let ends = [i32::MIN, i32::MAX, 0];
            let a = if rng.chance(0.3) { *rng.pick(&ends) } else { a };
            return Span { lo: a.min(b), hi: a.max(b), id };
        }
        self.at += self.drift;
        let lo = self.at + rng.below(self.points as u64) as i32;
        let len = if rng.chance(0.3) { 0 } else { rng.below(self.longest as u64 + 1) as i32 };
        Span { lo, hi: lo + len, id }
    }
    fn which(&mut self, rng: &mut Rng, stored: f64) -> Which {
        let n = rng.next() as u16;
        match rng.weighted(&[stored, 0.7, 0.5, 3.0]) {
            0 => Which::Stored(n),
            1 => Which::Like(n),
            2 => Which::From(n, rng.below(self.longest as u64 + 1).min(255) as u8),
            _ => Which::This(self.span(rng)),
        }
    }
    fn fuse(&self, rng: &mut Rng) -> u32 {
        if rng.chance(self.faults) {
            let within = *rng.pick(&[3, 10, 30]);
            1 + rng.below(within) as u32
        } else {
            0
        }
    }
}

impl Family for IndexFamily {
    fn generate(&self, _property: &str, rng: &mut Rng) -> Value {
        if rng.chance(0.0002) {
            // Some that are harmless, some that are not.
            let count = *rng.pick(&[200, 2000, 16_000]);
            let tall = Some(Tall { count, descending: rng.chance(0.5) });
            return serde_json::to_value(Scenario { init: vec![], threads: vec![vec![]], tall }).unwrap();
        }
        let points = *rng.pick(&[2, 4, 8, 12, 30, 200]);
        let mut g = Gen {
            wide: rng.chance(0.2),
            points,
            longest: *rng.pick(&[0, 2, points / 2, points * 2]),
            ids: *rng.pick(&[1, 2, 5, 1000]),
            faults: *rng.pick(&[0.0, 0.0, 0.1, 0.4]),
            drift: *rng.pick(&[0, 0, 0, 1, -1, points]),
            at: 0,
        };
        let init = match rng.weighted(&[3.0, 3.0, 0.3, 0.02]) {
            0 => 0,
            1 => rng.range(1, 10),
            2 => rng.range(10, 70),
            _ => rng.range(80, 150),
        };
        let init: Vec<Span> = (0..init).map(|_| g.span(rng)).collect();
        let grows = *rng.pick(&[1.0, 3.0, 6.0]);
        let shrinks = *rng.pick(&[1.0, 3.0, 6.0]);
        let asks = *rng.pick(&[1.0, 3.0]);
        let n = if rng.chance(0.7) { 1 } else { rng.range(2, 4) };
        let threads = (0..n)
            .map(|_| {
                let len = if rng.chance(0.1) { rng.range(30, 80) } else { rng.range(1, 20) };
                let mut ops: Vec<Op> = (0..len)
                    .map(|_| {
                        let fuse = g.fuse(rng);
                        match rng.weighted(&[grows, shrinks, asks, asks, 0.3]) {
                            0 => Op::Insert { what: g.which(rng, 0.5), fuse },
                            1 => Op::Delete { what: g.which(rng, 6.0), fuse },
                            2 => {
                                let stop = if rng.chance(g.faults / 2.0) { 1 + rng.below(4) as u32 } else { 0 };
                                Op::Visit { what: g.which(rng, 1.0), fuse, stop }
                            }
                            3 => Op::Meets { what: g.which(rng, 1.0), fuse },
                            _ => Op::Sweep,
                        }
                    })
                    .collect();
                ops.push(Op::Sweep);
                ops
            })
            .collect();
        serde_json::to_value(Scenario { init, threads, tall: None }).unwrap()
    }

    fn execute(&self, case: &Case, stats: &mut Stats) -> Result<Outcome, String> {
        let s: Scenario = serde_json::from_value(case.scenario.clone()).map_err(|e| e.to_string())?;
        let spans = s.threads.iter().flatten().filter_map(|o| match o {
            Op::Insert { what: Which::This(w), .. }
            | Op::Delete { what: Which::This(w), .. }
            | Op::Visit { what: Which::This(w), .. }
            | Op::Meets { what: Which::This(w), .. } => Some(w),
            _ => None,
        });
        if s.threads.is_empty() || s.threads.len() > 4 || s.init.iter().chain(spans).any(|w| w.lo > w.hi) {
            return Err("not well-formed".into());
        }
        if let Some(t) = &s.tall {
            if t.count > 20_000 {
                return Err("too many".into());
            }
            let violation = t.run();
            stats.runs += 1;
            stats.add("many_in_order", 1);
            let trace = vec![format!("{t:?}: {violation:?}")];
            let hash = hash_str(0, &trace[0]);
            return Ok(Outcome { violation, hash, decisions: vec![vec![]], trace, tainted: false, off_topic: None });
        }
        let ctl = Arc::new(Ctl {
            held: RwLock::new(Held { tree: IntervalSearchTree::default(), bag: vec![] }),
            log: Mutex::default(),
        });
        let bodies = s
            .threads
            .iter()
            .enumerate()
            .map(|(t, ops)| {
                let (ctl, ops) = (ctl.clone(), ops.clone());
                let mut first: Vec<Op> = vec![];
                if t == 0 {
                    first.extend(s.init.iter().map(|w| Op::Insert { what: Which::This(*w), fuse: 0 }));
                }
                first.extend(ops);
                Box::new(move || {
                    ctl.thread(t, &first);
                    let _ = lib(|| drop(ctl));
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let r = simrt::run(&config(&case.sched, 0), bodies);
        let tainted = !r.clean();
        stats.runs += 1;
        count_run(stats, &r);
        let mut l = ctl.log.lock().unwrap();
        l.trace.sort();
        let trace: Vec<String> = l.trace.iter().map(|(n, s)| format!("{n:4} {s}")).collect();
        let hash = trace.iter().fold(r.hash ^ r.steps, |h, s| hash_str(h, s));
        for c in &l.counts {
            stats.add(c, 1);
        }
        stats.add("operations", trace.len() as u64);
        if r.preemptions + r.blocked > 0 || !l.counts.is_empty() {
            stats.nontrivial += 1;
            stats.seen.insert(hash);
        }
        let violation = match r.end {
            End::Finished => l.wrong.as_ref().map(|(c, m)| Violation::new(c, m.clone())),
            e => Some(Violation::new("Stuck", format!("{e:?}: threads {:?} never finish", r.unfinished))),
        };
        drop(l);
        if tainted {
            std::mem::forget(ctl);
        }
        Ok(Outcome { violation, hash, decisions: vec![r.decisions], trace, tainted, off_topic: None })
    }

    fn budget(&self, _property: &str, thorough: bool) -> Budget {
        if thorough {
            Budget { runs: 10_000_000, seconds: 600 }
        } else {
            Budget { runs: 300_000, seconds: 60 }
        }
    }

    fn info(&self, _property: &str) -> Info {
        Info {
            rule: "A case is a set of intervals (few or many, dense or sparse, with equal bounds, equal intervals, in ascending or random order), 1-4 threads inserting, deleting and asking under a lock, a plan of panics in the intervals' own functions and in the visitor, and a schedule; non-trivial if an operation was cut short by a panic or threads were preempted or waited; distinct by observations and scheduling decisions.",
            real: &["plugins/interval: tree.rs, node.rs, lib.rs, date.rs", "std::sync::RwLock (down to the futex call)"],
            stub: &["intervals: values whose comparisons and bounds panic as planned", "the installation of the index into a schema (plugin.rs) does not compile and is left out"],
            assumptions: &["memory is sequentially consistent (one thread runs at a time)", "scenarios sampled, not enumerated", "intervals have lo <= hi and a consistent equality and order"],
        }
    }
}
