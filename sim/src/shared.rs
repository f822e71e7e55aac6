//! One transaction worked on by several threads (C21).

use crate::case::*;
use crate::schema::{config, count_run};
use plotline::deref::{TryDeref, With, WithMut};
use plotline::graph::{Graph, Source};
use plotline::id::Identify;
use plotline::schema::ops::delete::{AfterDelete, Delete};
use plotline::schema::ops::save::{BeforeSave, Save};
use plotline::schema::transaction::{Context, Ctx, Target, Transaction};
use plotline::schema::{Error, Result as PlResult, Schema};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::rng::Rng;
use simrt::{lib, user, End};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, OnceLock};

pub struct SharedFamily;

// ---------------------------------------------------------------- scenarios

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Finish {
    Ok,
    Err,
    Panic,
    Abandon,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
    Put(u16, u32),
    Del(u16),
    Get(u16),
    Has(u16),
    Handle(u16),
    /// Look every id up, one after the other.
    Scan,
    Nested { steps: Vec<Op>, finish: Finish },
    /// Many changes in a row, in a nested transaction.
    Many { n: u16, seed: u32 },
    Save(u16, u32),
    Delete(u16),
    /// Add to both halves of the target, and panic in between or not.
    Add { by: u32, panic: bool },
    Target,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Scenario {
    ids: u16,
    init: Vec<(u16, u32)>,
    /// How many transactions there are around the one shared.
    chain: u8,
    /// Changes pending in the shared transaction before it is shared.
    before: Vec<(u16, Option<u32>)>,
    threads: Vec<Vec<Op>>,
    /// Saves save a companion, deletes delete it.
    companions: bool,
    /// Somebody who looks at the graph through read guards, this many times.
    onlooker: u8,
    commit: bool,
    /// Where a thread stands still until nobody else can go on: (thread, kind of moment, how many of them before).
    #[serde(default)]
    stalls: Vec<(u8, u8, u16)>,
}

// ---------------------------------------------------------------- nodes

#[derive(Debug)]
struct Node {
    id: u16,
    val: u32,
    halves: (u64, u64),
}
impl Clone for Node {
    fn clone(&self) -> Self {
        moment(0);
        Node { id: self.id, val: self.val, halves: self.halves }
    }
}
impl Identify for Node {
    type Id = u16;
    fn id(&self) -> &u16 {
        moment(1);
        &self.id
    }
}
fn node(id: u16, val: u32) -> Node {
    Node { id, val, halves: (0, 0) }
}

struct Planned;

thread_local! {
    static STALLS: RefCell<Vec<(u8, u16)>> = const { RefCell::new(Vec::new()) };
}

/// A moment at which the thread may stand still: 0 copying a node, 1 asking for its id, 2 within an access to the target.
fn moment(kind: u8) {
    let now = STALLS.with_borrow_mut(|l| {
        let mut now = false;
        l.retain_mut(|(k, n)| {
            if *k != kind {
                return true;
            }
            match n.checked_sub(1) {
                Some(less) => {
                    *n = less;
                    true
                }
                None => {
                    now = true;
                    false
                }
            }
        });
        now
    });
    if now {
        STALLED.fetch_add(1, Ordering::Relaxed);
        simrt::stall();
    }
}

static STALLED: AtomicU64 = AtomicU64::new(0);

// ---------------------------------------------------------------- histories

type State = BTreeMap<u16, u32>;

#[derive(Clone, Debug)]
enum Kind {
    Changes(Vec<(u16, Option<u32>)>),
    Read(u16, Option<u32>),
    Has(u16, bool),
    /// The whole state.
    All(State),
}

#[derive(Clone, Debug)]
struct Ev {
    start: u64,
    end: u64,
    kind: Kind,
}

#[derive(Clone, Debug)]
enum Held {
    /// An update added this to what it found.
    Add { by: u32, found: (u64, u64), torn: bool },
    Look { found: (u64, u64) },
    Refused,
}

#[derive(Default)]
struct Log {
    events: Vec<Vec<Ev>>,
    /// Accesses to the target: begin and end of the access and, if granted, of the closure.
    target: Vec<(u64, u64, Held)>,
    seen: Vec<(u64, u64, State)>,
    began: Option<u64>,
    ended: Option<u64>,
    snapshot: Option<State>,
    wrong: Option<(String, String)>,
    trace: Vec<(u64, String)>,
    counts: Vec<&'static str>,
}

struct Board(Schema<Node>);
unsafe impl Send for Board {}
unsafe impl Sync for Board {}

struct Open(*const Context<'static, Node>);
unsafe impl Send for Open {}
unsafe impl Sync for Open {}

struct Ctl {
    s: Scenario,
    board: Board,
    open: OnceLock<Open>,
    /// Is the context there, and how many are at work on it?
    gate: Mutex<(bool, usize)>,
    bell: Condvar,
    log: Mutex<Log>,
}

const COMPANION: u16 = 1000;

/// A local view of nested transactions of one thread.
struct Layers<'a>(Vec<&'a Mutex<Vec<(u16, Option<u32>)>>>);

impl Layers<'_> {
    fn pending(&self, id: u16) -> Option<Option<u32>> {
        self.0.iter().rev().find_map(|l| l.lock().unwrap().iter().rev().find(|(i, _)| *i == id).map(|(_, v)| *v))
    }
}

impl Ctl {
    fn with_log<R>(&self, f: impl FnOnce(&mut Log) -> R) -> R {
        f(&mut self.log.lock().unwrap())
    }
    fn wrong(&self, class: &str, message: String) {
        self.with_log(|l| {
            l.wrong.get_or_insert((class.into(), message));
        })
    }
    fn note(&self, t: usize, start: u64, end: u64, kind: Kind) {
        self.with_log(|l| {
            l.trace.push((end, format!("thread {t} [{start}..]: {kind:?}")));
            l.events[t].push(Ev { start, end, kind })
        })
    }
    fn say(&self, t: usize, what: String) {
        let n = simrt::event();
        self.with_log(|l| l.trace.push((n, format!("thread {t}: {what}"))));
    }
    fn count(&self, what: &'static str) {
        self.with_log(|l| l.counts.push(what));
    }

    fn get(&self, t: usize, ctx: &Context<'_, Node>, over: &Layers<'_>, id: u16) {
        let start = simrt::event();
        let got = lib(|| ctx.get(&id)).map(|n| n.val);
        self.read(t, over, start, id, got);
    }

    fn read(&self, t: usize, over: &Layers<'_>, start: u64, id: u16, got: Option<u32>) {
        let end = simrt::event();
        match over.pending(id) {
            Some(want) if want != got => {
                self.wrong("Own", format!("thread {t} found {got:?} for {id}, having itself made it {want:?}"))
            }
            Some(_) => {}
            None => self.note(t, start, end, Kind::Read(id, got)),
        }
    }

    fn has(&self, t: usize, over: &Layers<'_>, start: u64, id: u16, got: bool) {
        let end = simrt::event();
        match over.pending(id) {
            Some(want) if want.is_some() != got => {
                self.wrong("Own", format!("thread {t} was told {got} for {id}, having itself made it {want:?}"))
            }
            Some(_) => {}
            None => self.note(t, start, end, Kind::Has(id, got)),
        }
    }

    /// Takes what a nested transaction changed to where it was nested.
    fn merged(&self, t: usize, over: &Layers<'_>, start: u64, changes: Vec<(u16, Option<u32>)>) {
        let end = simrt::event();
        match over.0.last() {
            Some(up) => up.lock().unwrap().extend(changes),
            None => self.note(t, start, end, Kind::Changes(changes)),
        }
    }

    fn nested(&self, t: usize, ctx: &Context<'_, Node>, over: &Layers<'_>, steps: &[Op], finish: Finish, quiet: bool) {
        let mine = Mutex::new(Vec::new());
        let mut at = 0;
        let inner = |ctx: &Context<'_, Node>| {
            let mut layers = over.0.clone();
            layers.push(&mine);
            let layers = Layers(layers);
            for s in steps {
                match s {
                    // Nobody else has this context: no need to let others go on in between.
                    Op::Put(id, val) if quiet => ctx.save(node(*id, *val)),
                    Op::Del(id) if quiet => ctx.delete(*id),
                    _ => {
                        self.op(t, ctx, &layers, s);
                        continue;
                    }
                }
                let (Op::Put(id, _) | Op::Del(id)) = s else { unreachable!() };
                let val = if let Op::Put(_, val) = s { Some(*val) } else { None };
                mine.lock().unwrap().push((*id, val));
            }
        };
        let r = catch_unwind(AssertUnwindSafe(|| {
            lib(|| -> PlResult<()> {
                let tx = ctx.transaction();
                if finish == Finish::Abandon {
                    let ctx = Context::from(&tx);
                    user(|| inner(&ctx));
                    return Err(Error::Noop);
                }
                tx.with(|ctx| {
                    user(|| {
                        inner(&ctx);
                        at = simrt::event();
                        match finish {
                            Finish::Err => Err(Error::custom("planned")),
                            Finish::Panic => panic_any(Planned),
                            _ => Ok(()),
                        }
                    })
                })
            })
        }));
        match (r, finish) {
            (Ok(Ok(())), Finish::Ok) => self.merged(t, over, at, mine.into_inner().unwrap()),
            (Ok(Err(_)), Finish::Err) => self.count("fault.nested_error"),
            (Ok(Err(_)), Finish::Abandon) => self.count("fault.abandoned"),
            (Err(p), Finish::Panic) if p.is::<Planned>() => self.count("fault.nested_panic"),
            (Ok(r), _) => self.wrong("Result", format!("thread {t}: a nested transaction ended by {finish:?} gave {r:?}")),
            (Err(_), _) => self.wrong("Panic", format!("thread {t}: a nested transaction panicked")),
        }
        self.say(t, format!("nested, {finish:?}"));
    }

    fn op(&self, t: usize, ctx: &Context<'_, Node>, over: &Layers<'_>, op: &Op) {
        simrt::point();
        match op {
            Op::Put(id, val) => {
                let start = simrt::event();
                lib(|| ctx.save(node(*id, *val)));
                self.merged(t, over, start, vec![(*id, Some(*val))]);
            }
            Op::Del(id) => {
                let start = simrt::event();
                lib(|| ctx.delete(*id));
                self.merged(t, over, start, vec![(*id, None)]);
            }
            Op::Get(id) => self.get(t, ctx, over, *id),
            Op::Scan => (0..self.s.ids).for_each(|id| self.get(t, ctx, over, id)),
            Op::Has(id) => {
                let start = simrt::event();
                let got = lib(|| ctx.contains(id));
                self.has(t, over, start, *id, got);
            }
            Op::Handle(id) => {
                let p = lib(|| ctx.node(*id));
                let start = simrt::event();
                let got = lib(|| p.try_deref().map(|n| n.val));
                self.read(t, over, start, *id, got);
                let start = simrt::event();
                let there = !lib(|| ctx.node(*id).is_virtual());
                self.has(t, over, start, *id, there);
                let again = lib(|| p.try_deref().map(|n| n.val));
                if again != got {
                    self.wrong("Handle", format!("thread {t}: a handle gave {got:?}, then {again:?}"));
                }
            }
            Op::Nested { steps, finish } => self.nested(t, ctx, over, steps, *finish, false),
            Op::Many { n, seed } => {
                let mut rng = Rng::derive(*seed as u64, &[3]);
                let steps: Vec<Op> = (0..*n)
                    .map(|i| {
                        let id = rng.below(self.s.ids as u64) as u16;
                        if rng.chance(0.8) { Op::Put(id, 1_000_000 + *seed % 1000 * 1000 + i as u32) } else { Op::Del(id) }
                    })
                    .collect();
                self.nested(t, ctx, over, &steps, Finish::Ok, seed % 4 != 0);
            }
            Op::Save(id, val) => {
                let start = simrt::event();
                let r = catch_unwind(AssertUnwindSafe(|| lib(|| Save::new(node(*id, *val)).execute(ctx.transaction()))));
                match r {
                    Ok(Ok(())) => {
                        let mut changes = vec![(*id, Some(*val))];
                        if self.s.companions {
                            changes.push((*id + COMPANION, Some(*val)));
                        }
                        self.merged(t, over, start, changes)
                    }
                    Ok(Err(e)) => self.wrong("Result", format!("thread {t}: saving {id} gave {e:?}")),
                    Err(_) => self.wrong("Panic", format!("thread {t}: saving {id} panicked")),
                }
            }
            Op::Delete(id) => {
                let start = simrt::event();
                let r = catch_unwind(AssertUnwindSafe(|| lib(|| Delete::<Node>::new(*id).execute(ctx.transaction()))));
                match r {
                    Ok(Ok(())) => {
                        self.has(t, over, start, *id, true);
                        let mut changes = vec![(*id, None)];
                        if self.s.companions {
                            changes.push((*id + COMPANION, None));
                        }
                        self.merged(t, over, start, changes)
                    }
                    Ok(Err(Error::Noop)) => self.has(t, over, start, *id, false),
                    Ok(Err(e)) => self.wrong("Result", format!("thread {t}: deleting {id} gave {e:?}")),
                    Err(_) => self.wrong("Panic", format!("thread {t}: deleting {id} panicked")),
                }
            }
            // Only the shared context has a target.
            Op::Add { .. } | Op::Target if !over.0.is_empty() => {}
            Op::Add { by, panic } => {
                let start = simrt::event();
                let mut inside = None;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    lib(|| {
                        ctx.target().with_mut(|n| {
                            user(|| {
                                let enter = simrt::event();
                                let found = n.halves;
                                let held = Held::Add { by: *by, found, torn: *panic };
                                n.halves.0 += *by as u64;
                                inside = Some((enter, simrt::event(), held.clone()));
                                simrt::point();
                                moment(2);
                                if *panic {
                                    panic_any(Planned);
                                }
                                n.halves.1 += *by as u64;
                                inside = Some((enter, simrt::event(), held));
                            })
                        })
                    })
                }));
                self.target(t, start, inside, r.map(|r| r.is_some()), *panic);
            }
            Op::Target => {
                let start = simrt::event();
                let mut inside = None;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    lib(|| {
                        ctx.target().with(|n| {
                            user(|| {
                                let enter = simrt::event();
                                let found = n.halves;
                                simrt::point();
                                moment(2);
                                inside = Some((enter, simrt::event(), Held::Look { found }));
                            })
                        })
                    })
                }));
                self.target(t, start, inside, r.map(|r| r.is_some()), false);
            }
        }
    }

    fn target(&self, t: usize, start: u64, inside: Option<(u64, u64, Held)>, r: std::thread::Result<bool>, panic: bool) {
        let end = simrt::event();
        match (&r, &inside) {
            (Ok(true), Some(_)) if !panic => {}
            (Err(p), Some(_)) if panic && p.is::<Planned>() => self.count("fault.panic_in_target"),
            (Ok(false), None) => {}
            (Err(_), _) => self.wrong("Panic", format!("thread {t}: an access to the target panicked")),
            (Ok(r), _) => self.wrong("Target", format!("thread {t}: an access to the target, {}, said {r}", if inside.is_some() { "granted" } else { "refused" })),
        }
        self.with_log(|l| {
            let e = inside.unwrap_or((start, end, Held::Refused));
            l.trace.push((e.0, format!("thread {t} [..{}]: target {:?}", e.1, e.2)));
            l.target.push(e);
        });
    }

    // ------------------------------------------------------------ the threads

    fn share(&self, ctx: &Context<'_, Node>) {
        for (id, v) in &self.s.before {
            lib(|| match v {
                Some(v) => ctx.save(node(*id, *v)),
                None => ctx.delete(*id),
            });
        }
        let p: *const Context<'_, Node> = ctx;
        let _ = self.open.set(Open(p.cast()));
        let mut g = lib(|| self.gate.lock()).unwrap();
        g.0 = true;
        lib(|| self.bell.notify_all());
        while g.1 > 0 {
            g = lib(|| self.bell.wait(g)).unwrap();
        }
        lib(|| drop(g));
        // They are done: what is pending now is what is committed.
        let t = self.s.threads.len();
        let start = simrt::event();
        let all = self.every().filter_map(|id| lib(|| ctx.get(&id)).map(|n| (id, n.val))).collect();
        let end = simrt::event();
        self.note(t, start, end, Kind::All(all));
    }

    fn every(&self) -> impl Iterator<Item = u16> {
        let n = self.s.ids;
        (0..n).chain(COMPANION..COMPANION + n)
    }

    fn chain(&self, ctx: Context<'_, Node>, left: u8) -> PlResult<()> {
        if left == 0 {
            let ctx = ctx.with_target(node(0, 0));
            self.share(&ctx);
            return if self.s.commit { Ok(()) } else { Err(Error::custom("planned")) };
        }
        lib(|| ctx.transaction().with(|inner| user(|| self.chain(inner, left - 1))))
    }

    fn lead(&self) {
        let n = simrt::event();
        self.with_log(|l| l.began = Some(n));
        let r = catch_unwind(AssertUnwindSafe(|| lib(|| self.board.0.transaction().with(|ctx| user(|| self.chain(ctx, self.s.chain))))));
        let n = simrt::event();
        self.with_log(|l| l.ended = Some(n));
        match r {
            Ok(r) if r.is_ok() == self.s.commit => {}
            Ok(r) => self.wrong("Result", format!("the shared transaction gave {r:?}")),
            Err(_) => self.wrong("Panic", "the shared transaction panicked".into()),
        }
        let end = self.look();
        self.with_log(|l| l.snapshot = Some(end));
    }

    fn look(&self) -> State {
        lib(|| {
            let g = self.board.0.read();
            let all = g.into_iter().map(|n| (n.id, n.val)).collect();
            drop(g);
            all
        })
    }

    fn work(&self, t: usize) {
        let mut g = lib(|| self.gate.lock()).unwrap();
        while !g.0 {
            g = lib(|| self.bell.wait(g)).unwrap();
        }
        lib(|| drop(g));
        // The context outlives the work on it: who opened it waits.
        let ctx: &Context<'_, Node> = unsafe { &*self.open.get().unwrap().0.cast() };
        let mine = self.s.stalls.iter().filter(|(who, ..)| *who as usize == t).map(|(_, k, n)| (*k, *n)).collect();
        STALLS.with_borrow_mut(|l| *l = mine);
        for op in &self.s.threads[t] {
            let r = catch_unwind(AssertUnwindSafe(|| self.op(t, ctx, &Layers(vec![]), op)));
            if r.is_err() {
                self.wrong("Panic", format!("thread {t}: {op:?} panicked"));
            }
        }
        STALLS.with_borrow_mut(|l| l.clear());
        let mut g = lib(|| self.gate.lock()).unwrap();
        g.1 -= 1;
        lib(|| self.bell.notify_all());
        lib(|| drop(g));
    }
}

// ---------------------------------------------------------------- judgement

struct Lin<'a> {
    threads: &'a [Vec<Ev>],
    memo: HashSet<(Vec<usize>, State)>,
    nodes: u64,
    best: usize,
    why: String,
}

const NODES: u64 = 30_000;

impl Lin<'_> {
    fn go(&mut self, at: &mut Vec<usize>, state: &State) -> bool {
        let heads: Vec<(usize, &Ev)> = (0..at.len()).filter_map(|t| self.threads[t].get(at[t]).map(|e| (t, e))).collect();
        let Some(horizon) = heads.iter().map(|(_, e)| e.end).min() else { return true };
        self.nodes += 1;
        if self.nodes > NODES || !self.memo.insert((at.clone(), state.clone())) {
            return false;
        }
        let mut heads: Vec<_> = heads.into_iter().filter(|(_, e)| e.start <= horizon).collect();
        heads.sort_by_key(|(_, e)| e.end);
        for (t, e) in heads {
            let next = match &e.kind {
                Kind::Changes(c) => {
                    let mut s = state.clone();
                    for (id, v) in c {
                        match v {
                            Some(v) => s.insert(*id, *v),
                            None => s.remove(id),
                        };
                    }
                    Some(s)
                }
                Kind::Read(id, v) => (state.get(id) == v.as_ref()).then(|| state.clone()),
                Kind::Has(id, b) => (state.contains_key(id) == *b).then(|| state.clone()),
                Kind::All(all) => (all == state).then(|| state.clone()),
            };
            match next {
                Some(s) => {
                    at[t] += 1;
                    if self.go(at, &s) {
                        return true;
                    }
                    at[t] -= 1;
                }
                None => {
                    let depth = at.iter().sum::<usize>() + 1;
                    if depth > self.best {
                        self.best = depth;
                        self.why = format!("thread {t}: {:?} where {state:?} was to be expected", e.kind);
                    }
                }
            }
        }
        false
    }
}

fn judge(s: &Scenario, l: &Log, stats: &mut Stats) -> Option<Violation> {
    if let Some((c, m)) = &l.wrong {
        return Some(Violation::new(c, m.clone()));
    }
    // The target.
    let mut t: Vec<_> = l.target.iter().filter(|(_, _, h)| !matches!(h, Held::Refused)).collect();
    t.sort_by_key(|(a, _, _)| *a);
    let mut sum = 0;
    let mut busy: Option<u64> = None;
    let mut torn: Option<u64> = None;
    let mut looked = 0;
    for (enter, leave, h) in &t {
        let (found, add) = match h {
            Held::Add { by, found, torn } => (found, Some((*by, *torn))),
            Held::Look { found } => (found, None),
            Held::Refused => unreachable!(),
        };
        if torn.is_some() {
            return Some(Violation::new("Target", format!("access to the target was granted after an update of it had panicked, finding {found:?}")));
        }
        if busy.is_some_and(|b| *enter < b) || (add.is_some() && *enter < looked) {
            return Some(Violation::new("Target", "an access to the target was granted during an update of it".to_string()));
        }
        if *found != (sum, sum) {
            return Some(Violation::new("Target", format!("an access to the target found {found:?} where {sum} had been added")));
        }
        looked = looked.max(*leave);
        if let Some((by, bad)) = add {
            busy = Some(*leave);
            sum += by as u64;
            if bad {
                torn = Some(*enter);
            }
        }
    }
    for (start, end, h) in &l.target {
        if matches!(h, Held::Refused) && !torn.is_some_and(|a| a < *end) {
            return Some(Violation::new("Target", format!("access to the target was refused between {start} and {end} though nothing had torn it")));
        }
    }
    // The pending changes.
    let init: State = s.init.iter().copied().collect();
    let mut state = init.clone();
    for (id, v) in &s.before {
        match v {
            Some(v) => state.insert(*id, *v),
            None => state.remove(id),
        };
    }
    let mut lin = Lin { threads: &l.events, memo: HashSet::new(), nodes: 0, best: 0, why: String::new() };
    if !lin.go(&mut vec![0; l.events.len()], &state) {
        if lin.nodes > NODES {
            stats.add("undecided_within_search_limit", 1);
        } else {
            return Some(Violation::new("Serial", format!("no order of the operations explains what they observed: {}", lin.why)));
        }
    }
    // What was committed.
    let pending = l.events[s.threads.len()].iter().find_map(|e| match &e.kind {
        Kind::All(a) => Some(a.clone()),
        _ => None,
    });
    let want = if s.commit { pending.unwrap_or_default() } else { init.clone() };
    if l.snapshot.as_ref() != Some(&want) {
        return Some(Violation::new("Commit", format!("the graph holds {:?} afterwards, not {want:?}", l.snapshot)));
    }
    let (began, ended) = (l.began.unwrap_or(0), l.ended.unwrap_or(u64::MAX));
    for (a, b, seen) in &l.seen {
        if (*seen != init || *a > ended) && (*seen != want || *b < began) {
            return Some(Violation::new("Onlooker", format!("somebody reading from {a} to {b} found {seen:?}, before was {init:?} and after {want:?}")));
        }
    }
    None
}

// ---------------------------------------------------------------- generation

struct Gen {
    ids: u16,
    val: u32,
    weights: [f64; 12],
    fails: f64,
}

impl Gen {
    fn id(&self, rng: &mut Rng) -> u16 {
        rng.below(self.ids as u64) as u16
    }
    fn num(&mut self) -> u32 {
        self.val += 1;
        self.val
    }
    fn op(&mut self, rng: &mut Rng, depth: u8) -> Op {
        let mut w = self.weights;
        if depth == 0 {
            w[6] = 0.0;
            w[7] = 0.0;
        }
        let id = self.id(rng);
        match rng.weighted(&w) {
            0 => Op::Put(id, self.num()),
            1 => Op::Del(id),
            2 => Op::Get(id),
            3 => Op::Has(id),
            4 => Op::Handle(id),
            5 => Op::Scan,
            6 => {
                let n = rng.range(0, 6);
                let steps = (0..n).map(|_| self.op(rng, depth - 1)).collect();
                let finish = if rng.chance(self.fails) { *rng.pick(&[Finish::Err, Finish::Panic, Finish::Abandon]) } else { Finish::Ok };
                Op::Nested { steps, finish }
            }
            7 => Op::Many { n: *rng.pick(&[8, 16, 33, 70, 150, 300]) as u16, seed: rng.below(1 << 20) as u32 },
            8 => Op::Save(id, self.num()),
            9 => Op::Delete(id),
            10 => Op::Add { by: 1 + rng.below(9) as u32, panic: rng.chance(self.fails / 4.0) },
            _ => Op::Target,
        }
    }
}

impl Family for SharedFamily {
    fn generate(&self, _property: &str, rng: &mut Rng) -> Value {
        let ids = rng.range(1, 5) as u16;
        //                      Put  Del  Get  Has  Hdl  Scan Nest Many Save Del  Add  Tgt
        let mut weights = [2.0, 1.0, 2.0, 0.7, 0.7, 1.0, 3.0, 0.1, 1.0, 0.7, 0.7, 0.4];
        for w in &mut weights {
            *w *= *rng.pick(&[0.0, 0.5, 1.0, 1.0, 3.0]);
        }
        weights[0] += 0.1;
        if rng.chance(0.12) {
            weights[7] = 4.0;
        }
        let mut g = Gen { ids, val: 0, weights, fails: *rng.pick(&[0.0, 0.2, 0.5]) };
        let init = (0..ids).filter(|_| rng.chance(0.5)).collect::<Vec<_>>();
        let init = init.into_iter().map(|id| (id, g.num())).collect();
        let n = if rng.chance(0.4) { rng.below(4) } else { 0 };
        let before = (0..n).map(|_| (g.id(rng), rng.chance(0.6).then(|| g.num()))).collect();
        let n = rng.weighted(&[0.5, 5.0, 3.0, 1.0]) + 1;
        let len = *rng.pick(&[2, 4, 7]);
        let threads: Vec<Vec<Op>> = (0..n)
            .map(|_| {
                let len = rng.range(1, len);
                (0..len).map(|_| g.op(rng, 2)).collect()
            })
            .collect();
        let n = if rng.chance(0.5) { rng.range(1, 4) } else { 0 };
        let stalls = (0..n)
            .map(|_| {
                let kind = rng.weighted(&[3.0, 1.0, 1.0]) as u8;
                (rng.below(threads.len() as u64) as u8, kind, rng.below(if kind == 1 { 12 } else { 4 }) as u16)
            })
            .collect();
        let s = Scenario {
            ids,
            init,
            stalls,
            chain: rng.weighted(&[5.0, 2.0, 1.0]) as u8,
            before,
            threads,
            companions: rng.chance(0.3),
            onlooker: if rng.chance(0.3) { rng.range(1, 3) as u8 } else { 0 },
            commit: rng.chance(0.85),
        };
        serde_json::to_value(s).unwrap()
    }

    fn execute(&self, case: &Case, stats: &mut Stats) -> std::result::Result<Outcome, String> {
        let s: Scenario = serde_json::from_value(case.scenario.clone()).map_err(|e| e.to_string())?;
        fn fine(ops: &[Op], ids: u16, depth: u8) -> bool {
            ops.iter().all(|o| match o {
                Op::Put(i, _) | Op::Del(i) | Op::Get(i) | Op::Has(i) | Op::Handle(i) | Op::Save(i, _) | Op::Delete(i) => *i < ids,
                Op::Nested { steps, .. } => depth > 0 && fine(steps, ids, depth - 1),
                Op::Many { n, .. } => *n <= 1000,
                _ => true,
            })
        }
        let known = s.init.iter().map(|p| p.0).chain(s.before.iter().map(|p| p.0)).all(|i| i < s.ids);
        if s.threads.is_empty() || s.threads.len() > 6 || s.chain > 4 || s.ids > 50 || !known || !s.threads.iter().all(|t| fine(t, s.ids, 4)) {
            return Err("not well-formed".into());
        }
        let n = s.threads.len();
        let graph = Graph::from_iter(s.init.iter().map(|(i, v)| node(*i, *v)));
        let mut schema = Schema::from(graph);
        if s.companions {
            schema = schema
                .with_trigger(BeforeSave, |ctx: Ctx<Node>, target: Target<Node>| -> PlResult<()> {
                    let Some((id, val)) = target.with(|n| (n.id, n.val)) else { return Err(Error::custom("no target")) };
                    ctx.transaction().with(|c| {
                        c.save(node(id + COMPANION, val));
                        Ok(())
                    })
                })
                .with_trigger(AfterDelete, |ctx: Ctx<Node>, target: Target<Node>| -> PlResult<()> {
                    let Some(id) = target.with(|n| n.id) else { return Err(Error::custom("no target")) };
                    ctx.transaction().with(|c| {
                        c.delete(id + COMPANION);
                        Ok(())
                    })
                });
        }
        let onlooker = s.onlooker;
        let ctl = Arc::new(Ctl {
            s,
            board: Board(schema),
            open: OnceLock::new(),
            gate: Mutex::new((false, n)),
            bell: Condvar::new(),
            log: Mutex::new(Log { events: vec![Vec::new(); n + 1], ..Log::default() }),
        });
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for t in 0..n {
            let ctl = ctl.clone();
            bodies.push(Box::new(move || ctl.work(t)));
        }
        let c = ctl.clone();
        bodies.push(Box::new(move || c.lead()));
        if onlooker > 0 {
            let ctl = ctl.clone();
            bodies.push(Box::new(move || {
                for _ in 0..onlooker {
                    let a = simrt::event();
                    let seen = ctl.look();
                    let b = simrt::event();
                    ctl.with_log(|l| {
                        l.trace.push((b, format!("onlooker [{a}..]: {seen:?}")));
                        l.seen.push((a, b, seen))
                    });
                }
            }));
        }
        let r = simrt::run(&config(&case.sched, 0), bodies);
        let tainted = !r.clean();
        stats.runs += 1;
        count_run(stats, &r);
        match STALLED.swap(0, Ordering::Relaxed) {
            0 => {}
            n => stats.add("fault.stalled_thread", n),
        }
        let mut l = ctl.log.lock().unwrap();
        l.trace.sort();
        let trace: Vec<String> = l.trace.iter().map(|(n, s)| format!("{n:4} {s}")).collect();
        let hash = trace.iter().fold(r.hash ^ r.steps, |h, s| hash_str(h, s));
        for c in &l.counts {
            stats.add(c, 1);
        }
        stats.add("operations", trace.len() as u64);
        if r.preemptions + r.blocked > 0 || !l.counts.is_empty() {
            stats.nontrivial += 1;
            stats.seen.insert(hash);
        }
        let violation = match r.end {
            End::Finished => judge(&ctl.s, &l, stats),
            e => Some(Violation::new("Stuck", format!("{e:?}: threads {:?} never finish", r.unfinished))),
        };
        drop(l);
        if tainted {
            std::mem::forget(ctl);
        }
        Ok(Outcome { violation, hash, decisions: vec![r.decisions], trace, tainted, off_topic: None })
    }

    fn budget(&self, _property: &str, thorough: bool) -> Budget {
        if thorough {
            Budget { runs: 10_000_000, seconds: 600 }
        } else {
            Budget { runs: 250_000, seconds: 60 }
        }
    }

    fn info(&self, _property: &str) -> Info {
        Info {
            rule: "A case is a transaction (top-level or nested) whose context 1-4 threads work on: saves, deletes, look-ups, handles, nested transactions that succeed, fail, panic or are abandoned, save and delete operations with triggers, updates of the target that panic half-way; possibly an onlooker on the graph; and a schedule; all drawn from VERIF_SEED. Non-trivial if something failed or threads were preempted or waited; distinct by observations and scheduling decisions.",
            real: &["plotline::schema (transactions, contexts, targets, guards, triggers, save, delete), plotline::graph", "std locks, once-cells and reference counts (down to the futex call)"],
            stub: &["futex(2): waiting and waking decided by the simulator", "node type, triggers and bodies: programs of the harness"],
            assumptions: &["memory is sequentially consistent (one thread runs at a time)", "Context is not Sync; the harness shares one whose schema holds nothing that forbids it", "scenarios sampled, not enumerated"],
        }
    }
}
