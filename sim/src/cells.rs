//! Lazy documents (C11) and node handles (C12): values resolved once and shared.

use crate::case::*;
use crate::schema::{config, count_run};
use plotline::deref::TryDeref;
use plotline::document::lazy::LazyDocument;
use plotline::document::DocumentRepository;
use plotline::graph::{NodeProxy, Source};
use plotline::id::Identify;
use plotline::property::Property;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::{lib, user, End};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub struct CellFamily;

// ---------------------------------------------------------------- scenarios

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Look {
    Ok,
    None,
    Panic,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Ref {
    Shared(u8),
    Mine(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
    Access(Ref),
    Copy(Ref),
    /// Handles only.
    Virtual(Ref),
    Successors(Ref),
    Put(u8),
    Del(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scenario {
    /// Ids of the shared cells; `given`: created with their content.
    shared: Vec<(u8, bool)>,
    /// Nodes in the source at first.
    init: Vec<u8>,
    looks: Vec<Look>,
    threads: Vec<Vec<Op>>,
}

// ---------------------------------------------------------------- histories

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize)]
enum Got {
    Value(u64),
    None,
    Panic,
}

#[derive(Clone, Debug)]
struct Lookup {
    start: u64,
    end: u64,
    res: Got,
    /// Only asked whether there is one, and told there is none.
    peek: bool,
}

#[derive(Clone, Debug)]
struct Access {
    cell: usize,
    thread: usize,
    start: u64,
    end: u64,
    lookups: Vec<Lookup>,
    res: Got,
    /// Of which document or node the value is.
    id: u8,
}

#[derive(Clone, Debug)]
enum Origin {
    Fresh,
    Given(u64),
    Copy { of: usize, start: u64, end: u64 },
}

#[derive(Clone, Debug)]
struct CellInfo {
    id: u8,
    origin: Origin,
}

#[derive(Default)]
struct History {
    cells: Vec<CellInfo>,
    accesses: Vec<Access>,
    wrong: Vec<String>,
    /// (time, id, version or removed)
    source: Vec<(u64, u8, Option<u64>)>,
    trace: Vec<(u64, String)>,
}

struct Shared {
    h: Mutex<History>,
    state: Mutex<BTreeMap<u8, u64>>,
    looks: Mutex<std::vec::IntoIter<Look>>,
    version: AtomicU64,
    faults: AtomicU64,
    lazy: bool,
}

thread_local! {
    static LOOKUPS: RefCell<Vec<Lookup>> = const { RefCell::new(Vec::new()) };
    static ASKED: RefCell<Option<u8>> = const { RefCell::new(None) };
}

impl Shared {
    fn look(&self, id: u8) -> Option<u64> {
        user(|| {
            let start = simrt::event();
            simrt::point();
            if let Some(want) = ASKED.with(|a| *a.borrow()) {
                if want != id {
                    self.h.lock().unwrap().wrong.push(format!("looked up {id} on an access to {want}"));
                }
            }
            let plan = self.looks.lock().unwrap().next().unwrap_or(Look::Ok);
            let res = match plan {
                Look::Panic => Got::Panic,
                Look::None if self.lazy => Got::None,
                _ if self.lazy => Got::Value(self.version.fetch_add(1, SeqCst)),
                _ => self.state.lock().unwrap().get(&id).map_or(Got::None, |v| Got::Value(*v)),
            };
            if res == Got::Panic || plan == Look::None {
                self.faults.fetch_add(1, SeqCst);
            }
            simrt::point();
            let end = simrt::event();
            LOOKUPS.with(|l| l.borrow_mut().push(Lookup { start, end, res, peek: false }));
            match res {
                Got::Value(v) => Some(v),
                Got::None => None,
                Got::Panic => panic_any("lookup".to_string()),
            }
        })
    }
}

// ---------------------------------------------------------------- lazy documents

#[derive(Clone, Debug)]
struct Doc {
    id: u8,
    version: u64,
}
impl Identify for Doc {
    type Id = u8;
    fn id(&self) -> &u8 {
        &self.id
    }
}

struct Repo(Arc<Shared>);
impl DocumentRepository for Repo {
    type Document = Doc;
    fn find_by_id(&self, id: &u8) -> Option<Doc> {
        let id = *id;
        self.0.look(id).map(|version| Doc { id, version })
    }
}

// ---------------------------------------------------------------- node handles

#[derive(Debug)]
struct Node {
    id: u8,
    version: u64,
}
impl Clone for Node {
    fn clone(&self) -> Self {
        user(simrt::point);
        Node { id: self.id, version: self.version }
    }
}
impl Identify for Node {
    type Id = u8;
    fn id(&self) -> &u8 {
        &self.id
    }
}

fn edges(version: u64) -> Vec<u8> {
    (0..version % 4).map(|i| ((version / 4 + i) % 5) as u8).collect()
}

struct Edge(u8);
impl Identify for Edge {
    type Id = u8;
    fn id(&self) -> &u8 {
        &self.0
    }
}
impl Property<Node> for Edge {
    fn all(n: &Node) -> Vec<Self> {
        let v = n.version;
        user(|| edges(v).into_iter().map(Edge).collect())
    }
}

struct Src(Arc<Shared>);
impl Source for Src {
    type Node = Node;
    fn get(&self, id: &u8) -> Option<Node> {
        let id = *id;
        self.0.look(id).map(|version| Node { id, version })
    }
    fn contains(&self, id: &u8) -> bool {
        user(|| {
            let start = simrt::event();
            simrt::point();
            let r = self.0.state.lock().unwrap().contains_key(id);
            simrt::point();
            if !r {
                let end = simrt::event();
                LOOKUPS.with(|l| l.borrow_mut().push(Lookup { start, end, res: Got::None, peek: true }));
            }
            r
        })
    }
}

enum Cell {
    Lazy(LazyDocument<Repo>),
    Handle(NodeProxy<'static, Src>),
}

fn copy(c: &Cell) -> Cell {
    match c {
        Cell::Lazy(d) => Cell::Lazy(d.clone()),
        Cell::Handle(p) => Cell::Handle(p.clone()),
    }
}

// ---------------------------------------------------------------- execution

struct Ctl {
    sh: Arc<Shared>,
    src: Arc<Src>,
    shared: Vec<(usize, Cell)>,
}

fn guarded<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(|| lib(f))).ok()
}

impl Ctl {
    fn access(&self, t: usize, n: usize, c: &Cell, how: &Op) {
        let id = self.sh.h.lock().unwrap().cells[n].id;
        LOOKUPS.with(|l| l.borrow_mut().clear());
        ASKED.with(|a| *a.borrow_mut() = Some(id));
        let start = simrt::event();
        let mut succ = None;
        let r = guarded(|| match (c, how) {
            (Cell::Lazy(d), _) => d.try_deref().map(|d| (d.id, d.version)),
            (Cell::Handle(p), Op::Successors(_)) => {
                succ = Some(p.successors::<Edge>().iter().map(|s| *s.id()).collect::<Vec<u8>>());
                None
            }
            (Cell::Handle(p), _) => p.try_deref().map(|n| (n.id, n.version)),
        });
        let end = simrt::event();
        let lookups = LOOKUPS.with(|l| std::mem::take(&mut *l.borrow_mut()));
        if let (Some(list), Cell::Handle(p)) = (&succ, c) {
            // What the handle says now must be what its successors came from.
            ASKED.with(|a| *a.borrow_mut() = Some(id));
            let start2 = simrt::event();
            let v = guarded(|| p.try_deref().map(|n| (n.id, n.version)));
            let more = LOOKUPS.with(|l| std::mem::take(&mut *l.borrow_mut()));
            let res = match &v {
                None => Got::Panic,
                Some(None) => Got::None,
                Some(Some((_, v))) => Got::Value(*v),
            };
            let want = match res {
                Got::Value(v) => edges(v),
                _ => vec![],
            };
            let mut h = self.sh.h.lock().unwrap();
            if *list != want {
                h.wrong.push(format!("successors {list:?} of a handle whose node has the edges {want:?}"));
            }
            h.trace.push((start, format!("thread {t}: successors of cell {n} (id {id}): {list:?}")));
            let e2 = simrt::event();
            h.accesses.push(Access { cell: n, thread: t, start, end, lookups, res, id });
            h.accesses.push(Access { cell: n, thread: t, start: start2, end: e2, lookups: more, res, id });
            return;
        }
        let (res, vid) = match r {
            None => (Got::Panic, id),
            Some(None) => (Got::None, id),
            Some(Some((i, v))) => (Got::Value(v), i),
        };
        let mut h = self.sh.h.lock().unwrap();
        for l in &lookups {
            h.trace.push((l.start, format!("thread {t}:   lookup begins")));
            h.trace.push((l.end, format!("thread {t}:   lookup ends with {:?}", l.res)));
        }
        h.trace.push((start, format!("thread {t}: access to cell {n} (id {id}) begins")));
        h.trace.push((end, format!("thread {t}: access to cell {n} yields {res:?}")));
        h.accesses.push(Access { cell: n, thread: t, start, end, lookups, res, id: vid });
    }

    fn thread(&self, t: usize, ops: &[Op]) {
        let mut mine: Vec<(usize, Cell)> = Vec::new();
        for op in ops {
            simrt::point();
            let pick = |r: &Ref| -> Option<(bool, usize)> {
                match r {
                    Ref::Shared(i) if !self.shared.is_empty() => Some((true, *i as usize % self.shared.len())),
                    Ref::Mine(i) if !mine.is_empty() => Some((false, *i as usize % mine.len())),
                    _ => None,
                }
            };
            let (Op::Access(r) | Op::Copy(r) | Op::Virtual(r) | Op::Successors(r)) = op else {
                match op {
                    Op::Put(id) => {
                        let v = self.sh.version.fetch_add(1, SeqCst);
                        self.sh.state.lock().unwrap().insert(*id, v);
                        let e = simrt::event();
                        let mut h = self.sh.h.lock().unwrap();
                        h.source.push((e, *id, Some(v)));
                        h.trace.push((e, format!("thread {t}: source has {id} = {v}")));
                    }
                    Op::Del(id) => {
                        self.sh.state.lock().unwrap().remove(id);
                        let e = simrt::event();
                        let mut h = self.sh.h.lock().unwrap();
                        h.source.push((e, *id, None));
                        h.trace.push((e, format!("thread {t}: source lacks {id}")));
                    }
                    _ => {}
                }
                continue;
            };
            let Some((shared, i)) = pick(r) else { continue };
            let (n, c) = if shared { &self.shared[i] } else { &mine[i] };
            match op {
                Op::Access(_) | Op::Successors(_) => self.access(t, *n, c, op),
                Op::Virtual(_) => {
                    if let Cell::Handle(p) = c {
                        let start = simrt::event();
                        let r = guarded(|| p.is_virtual());
                        let end = simrt::event();
                        let mut h = self.sh.h.lock().unwrap();
                        let id = h.cells[*n].id;
                        h.trace.push((end, format!("thread {t}: cell {n} (id {id}) is virtual: {r:?}")));
                        match r {
                            None => h.wrong.push("asking whether a node exists panicked".into()),
                            Some(v) => h.virtuals(id, v, start, end),
                        }
                    }
                }
                Op::Copy(_) => {
                    let start = simrt::event();
                    let new = guarded(|| copy(c));
                    let end = simrt::event();
                    let mut h = self.sh.h.lock().unwrap();
                    let id = h.cells[*n].id;
                    let Some(new) = new else {
                        h.wrong.push("copying panicked".into());
                        continue;
                    };
                    h.cells.push(CellInfo { id, origin: Origin::Copy { of: *n, start, end } });
                    let k = h.cells.len() - 1;
                    h.trace.push((end, format!("thread {t}: cell {k} is a copy of cell {n}")));
                    let got = match &new {
                        Cell::Lazy(d) => *d.id(),
                        Cell::Handle(p) => *p.id(),
                    };
                    if got != id {
                        h.wrong.push(format!("a copy of a cell for {id} has the id {got}"));
                    }
                    drop(h);
                    mine.push((k, new));
                }
                _ => {}
            }
        }
    }
}

impl History {
    /// `v` must have been the right answer at some moment between start and end.
    fn virtuals(&mut self, id: u8, v: bool, start: u64, end: u64) {
        let mut present = false;
        let mut ok = false;
        for (at, i, s) in &self.source {
            if *at > end {
                break;
            }
            if *i != id {
                continue;
            }
            if *at >= start && present != v {
                ok = true;
            }
            present = s.is_some();
        }
        if present != v {
            ok = true;
        }
        if !ok {
            self.wrong.push(format!("node {id} reported {} though it was not", if v { "absent" } else { "present" }));
        }
    }

    fn judge(&self, sticky_none: bool) -> Option<String> {
        if let Some(w) = self.wrong.first() {
            return Some(w.clone());
        }
        let n = self.cells.len();
        let fixed = |r: Got| matches!(r, Got::Value(_)) || (sticky_none && r == Got::None);
        // From when on the cell's answer is certain, and what it is.
        let mut done: Vec<Option<(u64, Got)>> = vec![None; n];
        // Answers a cell may have by way of where it came from.
        let mut inherited: Vec<Vec<Got>> = vec![Vec::new(); n];
        for c in 0..n {
            let acc: Vec<&Access> = self.accesses.iter().filter(|a| a.cell == c).collect();
            match self.cells[c].origin {
                Origin::Fresh => {}
                Origin::Given(v) => {
                    done[c] = Some((0, Got::Value(v)));
                    inherited[c].push(Got::Value(v));
                }
                Origin::Copy { of, start, end } => {
                    if let Some((t, r)) = done[of] {
                        if t < start {
                            done[c] = Some((end, r));
                        }
                    }
                    let mut inh = inherited[of].clone();
                    for a in self.accesses.iter().filter(|a| a.cell == of) {
                        inh.extend(a.lookups.iter().filter(|l| l.end < end).map(|l| l.res));
                    }
                    inherited[c] = inh;
                }
            }
            for a in &acc {
                if a.id != self.cells[c].id {
                    return Some(format!("an access to {} yielded {}", self.cells[c].id, a.id));
                }
                let own = a.lookups.iter().rfind(|l| !l.peek).map(|l| l.res);
                let before: Vec<Got> = acc
                    .iter()
                    .flat_map(|b| &b.lookups)
                    .filter(|l| l.end < a.end)
                    .map(|l| l.res)
                    .chain(inherited[c].iter().copied())
                    .collect();
                match a.res {
                    Got::Panic => {
                        if own != Some(Got::Panic) {
                            return Some(format!("an access to cell {c} panicked though no lookup it made did"));
                        }
                    }
                    Got::Value(_) => {
                        if !before.contains(&a.res) {
                            return Some(format!("an access to cell {c} yielded {:?}, which no lookup had returned", a.res));
                        }
                    }
                    Got::None if sticky_none => {
                        if !before.contains(&Got::None) {
                            return Some(format!("an access to cell {c} yielded nothing though no lookup had found nothing"));
                        }
                    }
                    Got::None => {
                        let failed = acc
                            .iter()
                            .flat_map(|b| &b.lookups)
                            .any(|l| l.res == Got::None && l.start < a.end && l.end > a.start);
                        if !failed {
                            return Some(format!("an access to cell {c} yielded nothing though no lookup failed meanwhile"));
                        }
                    }
                }
                if matches!(own, Some(Got::Value(_))) && !fixed(a.res) {
                    return Some(format!("an access to cell {c} looked up {own:?} but yielded {:?}", a.res));
                }
            }
            let finals: Vec<&&Access> = acc.iter().filter(|a| fixed(a.res)).collect();
            if let Some(f) = finals.first() {
                if let Some(g) = finals.iter().find(|g| g.res != f.res) {
                    return Some(format!("cell {c} yielded {:?} and {:?}", f.res, g.res));
                }
                let first = finals.iter().min_by_key(|a| a.end).unwrap();
                if done[c].is_none_or(|(t, _)| first.end < t) {
                    done[c] = Some((first.end, first.res));
                }
            }
            if let Some((t, r)) = done[c] {
                for a in acc.iter().filter(|a| a.start > t) {
                    if a.res != r {
                        return Some(format!("cell {c} had settled on {r:?}, a later access yielded {:?}", a.res));
                    }
                    if a.lookups.iter().any(|l| !l.peek) {
                        return Some(format!("cell {c} had settled on {r:?} and was looked up again"));
                    }
                }
                for a in finals {
                    if a.res != r {
                        return Some(format!("cell {c} is a copy of one that had settled on {r:?}, an access yielded {:?}", a.res));
                    }
                }
            }
        }
        None
    }
}

fn threads_of(s: &Scenario, ctl: Arc<Ctl>) -> Vec<Box<dyn FnOnce() + Send>> {
    s.threads
        .iter()
        .enumerate()
        .map(|(t, ops)| {
            let (ctl, ops) = (ctl.clone(), ops.clone());
            Box::new(move || ctl.thread(t, &ops)) as Box<dyn FnOnce() + Send>
        })
        .collect()
}

impl Family for CellFamily {
    fn generate(&self, property: &str, rng: &mut Rng) -> serde_json::Value {
        let lazy = property == "C11";
        let ids = rng.range(1, 3) as u8;
        let n = rng.range(1, 3);
        let shared: Vec<(u8, bool)> =
            (0..n).map(|_| (rng.below(ids as u64) as u8, lazy && rng.chance(0.15))).collect();
        let threads = if rng.chance(0.12) { 1 } else { rng.range(2, 4) };
        let fail = *rng.pick(&[0.0, 0.1, 0.3, 0.6]);
        let panics = *rng.pick(&[0.0, 0.0, 0.1, 0.3]);
        // Few cases ask again and again for what cannot be had for long.
        let patient = rng.chance(0.015);
        let patience = if patient { rng.range(5, 60) } else { 0 };
        let (ids, n) = if patient { (1, 1) } else { (ids, n) };
        let threads = if patient { threads.min(2) } else { threads };
        let shared: Vec<(u8, bool)> = if patient { vec![(0, false)] } else { shared };
        let gloom = rng.chance(0.3);
        let looks = (0..patience + rng.below(8))
            .map(|i| {
                if i < patience {
                    if gloom || !lazy { Look::Panic } else { Look::None }
                } else if rng.chance(panics) {
                    Look::Panic
                } else if rng.chance(fail) {
                    Look::None
                } else {
                    Look::Ok
                }
            })
            .collect();
        let w: [f64; 6] = if lazy {
            [5.0, 1.5, 0.0, 0.0, 0.0, 0.0]
        } else {
            [4.0, 1.2, 1.2, 0.8, 1.2, 0.8]
        };
        let long = rng.chance(0.1);
        let mut ops = |rng: &mut Rng| -> Vec<Op> {
            let few = rng.range(1, if long { 14 } else { 5 });
            (0..if patient { patience + 3 + few } else { few })
                .map(|_| {
                    if patient && rng.chance(0.9) {
                        return Op::Access(Ref::Shared(0));
                    }
                    let r = if rng.chance(0.7) {
                        Ref::Shared(rng.below(n) as u8)
                    } else {
                        Ref::Mine(rng.below(3) as u8)
                    };
                    match rng.weighted(&w) {
                        0 => Op::Access(r),
                        1 => Op::Copy(r),
                        2 => Op::Virtual(r),
                        3 => Op::Successors(r),
                        4 => Op::Put(rng.below(ids as u64) as u8),
                        _ => Op::Del(rng.below(ids as u64) as u8),
                    }
                })
                .collect()
        };
        let threads: Vec<Vec<Op>> = (0..threads).map(|_| ops(rng)).collect();
        let init = (0..ids).filter(|_| rng.chance(0.6)).collect();
        serde_json::to_value(Scenario { shared, init, looks, threads }).unwrap()
    }

    fn execute(&self, case: &Case, stats: &mut Stats) -> Result<Outcome, String> {
        let s: Scenario = serde_json::from_value(case.scenario.clone()).map_err(|e| e.to_string())?;
        if s.threads.is_empty() || s.threads.len() > 6 {
            return Err("threads".into());
        }
        let lazy = case.property == "C11";
        let mut h = History::default();
        let mut state = BTreeMap::new();
        let mut v = 1;
        for id in &s.init {
            state.insert(*id, v);
            h.source.push((0, *id, Some(v)));
            v += 1;
        }
        let sh = Arc::new(Shared {
            h: Mutex::new(h),
            state: Mutex::new(state),
            looks: Mutex::new(s.looks.clone().into_iter()),
            version: AtomicU64::new(100),
            faults: AtomicU64::new(0),
            lazy,
        });
        let src = Arc::new(Src(sh.clone()));
        let repo = Arc::new(Repo(sh.clone()));
        let shared: Vec<(usize, Cell)> = s
            .shared
            .iter()
            .enumerate()
            .map(|(i, (id, given))| {
                let cell = if lazy && *given {
                    Cell::Lazy(LazyDocument::new(repo.clone(), Doc { id: *id, version: 1 + i as u64 }))
                } else if lazy {
                    Cell::Lazy(LazyDocument::builder(repo.clone())(*id))
                } else {
                    // The source outlives its handles: both belong to `Ctl`.
                    let r: &'static Src = unsafe { &*Arc::as_ptr(&src) };
                    Cell::Handle(NodeProxy::new(r, *id))
                };
                let origin = if lazy && *given { Origin::Given(1 + i as u64) } else { Origin::Fresh };
                sh.h.lock().unwrap().cells.push(CellInfo { id: *id, origin });
                (i, cell)
            })
            .collect();
        let ctl = Arc::new(Ctl { sh: sh.clone(), src, shared });
        let r = simrt::run(&config(&case.sched, 0), threads_of(&s, ctl.clone()));
        let tainted = !r.clean();
        if tainted {
            std::mem::forget(ctl);
        }
        stats.runs += 1;
        count_run(stats, &r);
        let mut h = sh.h.lock().unwrap();
        h.trace.sort();
        let trace: Vec<String> = h.trace.iter().map(|(n, s)| format!("{n:4} {s}")).collect();
        let hash = trace.iter().fold(r.hash ^ r.steps, |h, s| hash_str(h, s));
        for a in &h.accesses {
            stats.add(&format!("access.{}", match a.res { Got::Value(_) => "value", Got::None => "none", Got::Panic => "panic" }), 1);
            for l in &a.lookups {
                match l.res {
                    Got::Panic => stats.add("fault.lookup_panics", 1),
                    Got::None if lazy => stats.add("fault.lookup_fails", 1),
                    _ => stats.add("lookups_plain", 1),
                }
            }
        }
        stats.add("fault.source_changed", h.source.len().saturating_sub(s.init.len()) as u64);
        stats.add("copies", h.cells.len().saturating_sub(s.shared.len()) as u64);
        if r.preemptions + r.blocked > 0 || sh.faults.load(SeqCst) > 0 {
            stats.nontrivial += 1;
            stats.seen.insert(hash);
        }
        let violation = match r.end {
            End::Finished => h.judge(!lazy).map(|m| Violation::new("History", m)),
            e => Some(Violation::new("Stuck", format!("{e:?}: threads {:?} never finish", r.unfinished))),
        };
        Ok(Outcome { violation, hash, decisions: vec![r.decisions], trace, tainted, off_topic: None })
    }

    fn budget(&self, _property: &str, thorough: bool) -> Budget {
        if thorough {
            Budget { runs: 10_000_000, seconds: 600 }
        } else {
            Budget { runs: 500_000, seconds: 70 }
        }
    }

    fn info(&self, property: &str) -> Info {
        const ASSUME: &[&str] =
            &["memory is sequentially consistent (one thread runs at a time)", "scenarios sampled, not enumerated"];
        if property == "C11" {
            Info {
                rule: "A case is a set of lazy documents (fresh or created with content), 1-4 threads accessing and copying them, a fault plan for the lookups (fail, panic) and a schedule; non-trivial if threads were preempted or waited inside the code or a lookup failed; distinct by observations and scheduling decisions.",
                real: &["plotline::document::lazy", "std::sync::OnceLock (down to the futex call)"],
                stub: &["document repository: returns a new version at every lookup, fails and panics as planned", "futex(2)"],
                assumptions: ASSUME,
            }
        } else {
            Info {
                rule: "A case is a set of node handles, 1-4 threads resolving, copying and asking them while others change the source, a panic plan for the lookups and a schedule; non-trivial if threads were preempted or waited inside the code or a lookup panicked; distinct by observations and scheduling decisions.",
                real: &["plotline::graph::NodeProxy", "std::sync::OnceLock (down to the futex call)"],
                stub: &["node source: versioned map changed while handles are in use", "futex(2)"],
                assumptions: ASSUME,
            }
        }
    }
}
