//! Resources of a schema (C10).

use crate::case::*;
use crate::schema::{config, count_run};
use plotline::deref::{With, WithMut};
use plotline::graph::Graph;
use plotline::id::Identify;
use plotline::schema::resource::Res;
use plotline::schema::transaction::{Context, Ctx, Transaction};
use plotline::schema::trigger::Trigger;
use plotline::schema::Schema;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::{lib, user, End};
use std::cell::Cell;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

pub struct ResFamily;

const KINDS: usize = 8;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Via {
    /// A handle taken from the schema for this access.
    Fresh,
    /// The handle this thread took at its start.
    Kept,
    /// A handle taken inside a transaction.
    Tx,
    /// A handle given to a trigger.
    Trigger,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Op {
    /// Which combination of resources.
    combo: u8,
    write: bool,
    via: Via,
    panic: bool,
    /// Only ask whether the (first) resource exists.
    exists: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scenario {
    /// Kinds registered, in order; a kind registered again is overwritten.
    register: Vec<u8>,
    threads: Vec<Vec<Op>>,
    /// Kinds registered (again) after that, and what is done then.
    #[serde(default)]
    again: Vec<u8>,
    #[serde(default)]
    afterwards: Vec<Vec<Op>>,
}

/// A value updated in two halves.
struct Slot<const N: usize> {
    a: u64,
    b: u64,
}

trait Counter: 'static {
    fn new(v: u64) -> Self
    where
        Self: Sized;
    fn first(&mut self);
    fn second(&mut self);
    fn seen_a(&self) -> u64;
    fn seen_b(&self) -> u64;
}
impl<const N: usize> Counter for Slot<N> {
    fn new(v: u64) -> Self {
        Slot { a: v, b: v }
    }
    fn first(&mut self) {
        self.a += 1;
    }
    fn second(&mut self) {
        self.b += 1;
    }
    fn seen_a(&self) -> u64 {
        self.a
    }
    fn seen_b(&self) -> u64 {
        self.b
    }
}

/// Which type is resource number N.
trait Pick<const N: usize> {
    type T: Counter;
}
type Kind<const N: usize> = <() as Pick<N>>::T;

macro_rules! pick {
    ($($n:literal),*) => { $(impl Pick<$n> for () { type T = Slot<$n>; })* };
}
pick!(0, 1, 2, 3, 4);

/// Types that nothing but their identity tells apart: same name, same layout.
macro_rules! twin {
    ($($n:literal),*) => {
        $(const _: () = {
            pub struct Twin {
                b: u64,
                a: u64,
            }
            impl Counter for Twin {
                fn new(v: u64) -> Self {
                    Twin { a: v, b: v }
                }
                fn first(&mut self) {
                    self.a += 1;
                }
                fn second(&mut self) {
                    self.b += 1;
                }
                fn seen_a(&self) -> u64 {
                    self.a
                }
                fn seen_b(&self) -> u64 {
                    self.b
                }
            }
            impl Pick<$n> for () {
                type T = Twin;
            }
        };)*
    };
}
twin!(5, 6, 7);

#[derive(Clone, Debug)]
struct Access {
    thread: usize,
    /// Before or after the second registrations.
    phase: usize,
    kinds: Vec<usize>,
    write: bool,
    exists: bool,
    start: u64,
    /// Inside the closure; none if access was refused.
    held: Option<(u64, u64)>,
    /// Values seen at entry, per kind: both halves.
    seen: Vec<(u64, u64)>,
    panicked: bool,
    end: u64,
    answer: bool,
}

fn read_all(refs: &[&dyn Counter]) -> Vec<(u64, u64)> {
    refs.iter()
        .map(|c| {
            let a = c.seen_a();
            simrt::point();
            (a, c.seen_b())
        })
        .collect()
}

struct Note {
    held: Option<(u64, u64)>,
    seen: Vec<(u64, u64)>,
}

fn reading(n: &mut Note, refs: &[&dyn Counter], panic: bool) {
    let enter = simrt::event();
    n.held = Some((enter, enter));
    n.seen = read_all(refs);
    simrt::point();
    n.held = Some((enter, simrt::event()));
    if panic {
        panic_any("reader".to_string());
    }
}

fn writing(n: &mut Note, refs: &mut [&mut dyn Counter], panic: bool) {
    let enter = simrt::event();
    n.held = Some((enter, enter));
    n.seen = refs
        .iter()
        .map(|c| {
            let a = c.seen_a();
            simrt::point();
            (a, c.seen_b())
        })
        .collect();
    for c in refs.iter_mut() {
        c.first();
        simrt::point();
    }
    if panic {
        n.held = Some((enter, simrt::event()));
        panic_any("writer".to_string());
    }
    for c in refs.iter_mut() {
        c.second();
        simrt::point();
    }
    n.held = Some((enter, simrt::event()));
}

struct Handles(
    Res<Kind<0>>,
    Res<Kind<1>>,
    Res<Kind<2>>,
    Res<Kind<3>>,
    Res<Kind<4>>,
    Res<Kind<5>>,
    Res<Kind<6>>,
    Res<Kind<7>>,
);

/// The event whose trigger makes the access at hand.
struct Moment;

struct Task<'a> {
    op: &'a Op,
    note: &'a mut Note,
    answer: Option<bool>,
}

thread_local! {
    static TASK: Cell<*mut Task<'static>> = const { Cell::new(std::ptr::null_mut()) };
}

fn with_trigger(s: Schema<Node>) -> Schema<Node> {
    type R<const N: usize> = Res<Kind<N>>;
    s.with_trigger(
        Moment,
        |_: Ctx<'_, Node>, a: R<0>, b: R<1>, c: R<2>, d: R<3>, e: R<4>, f: R<5>, g: R<6>, h: R<7>| {
            let t = TASK.get();
            if !t.is_null() {
                // Set by `access` below on this thread's stack for the duration of the transaction.
                let t = unsafe { &mut *t };
                t.answer = Some(lib(|| perform(Handles(a, b, c, d, e, f, g, h), t.op, t.note)));
            }
            Ok(())
        },
    )
}

impl Handles {
    fn tx(c: &Context<'_, Node>) -> Self {
        Handles(c.into(), c.into(), c.into(), c.into(), c.into(), c.into(), c.into(), c.into())
    }
    fn new(s: &Schema<Node>) -> Self {
        let r = s.resources();
        Handles(r.into(), r.into(), r.into(), r.into(), r.into(), r.into(), r.into(), r.into())
    }
}

const COMBOS: &[&[usize]] = &[
    &[0],
    &[1],
    &[2],
    &[3],
    &[6],
    &[7],
    &[0, 1],
    &[1, 2],
    &[0, 3],
    &[0, 1, 2],
    &[1, 2, 6],
    &[0, 1, 2, 3],
    &[0, 1, 2, 3, 4],
    &[0, 1, 2, 3, 4, 5],
    &[1, 0],
    &[2, 0],
    &[0, 2],
    &[2, 1, 0],
    &[0, 2, 1],
    &[1, 3, 0, 2],
    &[3, 2, 1, 0],
    &[5, 4, 3, 2, 1, 0],
    &[6, 1],
];

macro_rules! one {
    ($h:expr, $op:expr, $n:expr, $r:expr) => {{
        let r = $r;
        if $op.exists {
            return Some(r.exists());
        }
        if $op.write {
            r.with_mut(|x| user(|| writing($n, &mut [x], $op.panic))).is_some()
        } else {
            r.with(|x| user(|| reading($n, &[x], $op.panic))).is_some()
        }
    }};
}

macro_rules! many {
    ($h:expr, $op:expr, $n:expr, $($i:tt $x:ident),*) => {{
        if $op.write {
            ($($h.$i,)*).with_mut(|($($x,)*)| user(|| writing($n, &mut [$($x),*], $op.panic))).is_some()
        } else {
            ($($h.$i,)*).with(|($($x,)*)| user(|| reading($n, &[$($x),*], $op.panic))).is_some()
        }
    }};
}

fn single(h: &Handles, op: &Op, n: &mut Note) -> Option<bool> {
    Some(match COMBOS[op.combo as usize][0] {
        0 => one!(h, op, n, &h.0),
        1 => one!(h, op, n, &h.1),
        2 => one!(h, op, n, &h.2),
        3 => one!(h, op, n, &h.3),
        4 => one!(h, op, n, &h.4),
        5 => one!(h, op, n, &h.5),
        6 => one!(h, op, n, &h.6),
        _ => one!(h, op, n, &h.7),
    })
}

/// Tuples own their parts: the handles are used up.
fn perform(h: Handles, op: &Op, n: &mut Note) -> bool {
    match op.combo {
        0..=5 => single(&h, op, n).unwrap(),
        6 => many!(h, op, n, 0 a, 1 b),
        7 => many!(h, op, n, 1 a, 2 b),
        8 => many!(h, op, n, 0 a, 3 b),
        9 => many!(h, op, n, 0 a, 1 b, 2 c),
        10 => many!(h, op, n, 1 a, 2 b, 6 c),
        11 => many!(h, op, n, 0 a, 1 b, 2 c, 3 d),
        12 => many!(h, op, n, 0 a, 1 b, 2 c, 3 d, 4 e),
        13 => many!(h, op, n, 0 a, 1 b, 2 c, 3 d, 4 e, 5 f),
        14 => many!(h, op, n, 1 a, 0 b),
        15 => many!(h, op, n, 2 a, 0 b),
        16 => many!(h, op, n, 0 a, 2 b),
        17 => many!(h, op, n, 2 a, 1 b, 0 c),
        18 => many!(h, op, n, 0 a, 2 b, 1 c),
        19 => many!(h, op, n, 1 a, 3 b, 0 c, 2 d),
        20 => many!(h, op, n, 3 a, 2 b, 1 c, 0 d),
        21 => many!(h, op, n, 5 a, 4 b, 3 c, 2 d, 1 e, 0 f),
        _ => many!(h, op, n, 6 a, 1 b),
    }
}

#[derive(Clone)]
struct Node;
impl Identify for Node {
    type Id = u8;
    fn id(&self) -> &u8 {
        &0
    }
}

struct Shared(Schema<Node>);
// Every resource registered is Send and Sync.
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

fn access(s: &Schema<Node>, kept: &Handles, thread: usize, op: &Op) -> Access {
    let kinds = COMBOS[op.combo as usize].to_vec();
    let mut n = Note { held: None, seen: vec![] };
    let start = simrt::event();
    let r = catch_unwind(AssertUnwindSafe(|| {
        lib(|| {
            match op.via {
                Via::Fresh => perform(Handles::new(s), op, &mut n),
                Via::Kept if kinds.len() == 1 => single(kept, op, &mut n).unwrap(),
                Via::Kept => perform(Handles::new(s), op, &mut n),
                Via::Tx => {
                    let mut r = false;
                    let _ = s.transaction().with(|ctx| {
                        r = perform(Handles::tx(&ctx), op, &mut n);
                        Ok(())
                    });
                    r
                }
                Via::Trigger => {
                    let mut t = Task { op, note: &mut n, answer: None };
                    TASK.set((&raw mut t).cast());
                    let _ = s.transaction().with(|ctx| ctx.triggers().select(Moment).execute(&ctx));
                    TASK.set(std::ptr::null_mut());
                    t.answer.unwrap_or(false)
                }
            }
        })
    }));
    TASK.set(std::ptr::null_mut());
    let end = simrt::event();
    Access {
        thread,
        phase: 0,
        kinds,
        write: op.write,
        exists: op.exists,
        start,
        held: n.held,
        seen: n.seen,
        panicked: r.is_err(),
        end,
        answer: r.unwrap_or(false),
    }
}

fn judge(s: &Scenario, all: &[Access]) -> Option<String> {
    // Values start at 1000 * (position of the last registration + 1).
    for a in all {
        let registered = |k: usize| {
            let again = if a.phase == 0 { &[] } else { &s.again[..] };
            let all = [&s.register[..], again].concat();
            all.iter().rposition(|r| *r as usize == k).map(|p| 1000 * (p as u64 + 1))
        };
        let history = |k: usize| History { all, since: if s.again.contains(&(k as u8)) { a.phase } else { 0 } };
        let what = format!("thread {} at {}..{}, resources {:?}", a.thread, a.start, a.end, a.kinds);
        let planned = a.held.is_some();
        if a.panicked && !planned {
            return Some(format!("{what}: panicked without having been given access"));
        }
        if a.exists {
            // Present and not torn, at some moment meanwhile.
            let torn_before = history(a.kinds[0]).torn(a.kinds[0], a.start);
            let torn_ever = history(a.kinds[0]).torn(a.kinds[0], a.end);
            let present = registered(a.kinds[0]).is_some();
            let ok = if a.answer { present && !torn_before } else { !present || torn_ever };
            if !ok {
                return Some(format!("{what}: exists() says {}", a.answer));
            }
            continue;
        }
        if !planned {
            // Refused: one of them is absent or torn.
            if !a.kinds.iter().any(|k| registered(*k).is_none() || history(*k).torn(*k, a.end)) {
                return Some(format!("{what}: refused though all are there and none was left half-updated"));
            }
            continue;
        }
        if !a.panicked && !a.answer {
            return Some(format!("{what}: was given access and yet reported as refused"));
        }
        for (k, seen) in a.kinds.iter().zip(&a.seen) {
            let Some(init) = registered(*k) else {
                return Some(format!("{what}: got resource {k}, which was never registered"));
            };
            let (enter, exit) = a.held.unwrap();
            // Exclusive.
            for b in all {
                if std::ptr::eq(a, b) || !b.kinds.contains(k) || !(a.write || b.write) {
                    continue;
                }
                if let Some((e2, x2)) = b.held {
                    if e2 < exit && enter < x2 {
                        return Some(format!("{what}: overlaps with thread {} at {}..{}", b.thread, b.start, b.end));
                    }
                }
            }
            if history(*k).torn(*k, enter) {
                return Some(format!("{what}: given resource {k} though an update of it had panicked: {seen:?}"));
            }
            if seen.0 != seen.1 {
                return Some(format!("{what}: saw resource {k} half updated: {seen:?}"));
            }
            let updates = history(*k)
                .iter()
                .filter(|b| b.write && b.kinds.contains(k) && b.held.is_some_and(|h| h.1 < enter))
                .count() as u64;
            if seen.0 != init + updates {
                return Some(format!("{what}: saw {} in resource {k}, expected {} (registered {init}, {updates} updates)", seen.0, init + updates));
            }
        }
    }
    None
}

/// The accesses that concern a resource: those before it was registered again went to another.
#[derive(Clone, Copy)]
struct History<'a> {
    all: &'a [Access],
    since: usize,
}

impl<'a> History<'a> {
    fn iter(self) -> impl Iterator<Item = &'a Access> {
        self.all.iter().filter(move |a| a.phase >= self.since)
    }
    /// Has an update of resource `k` begun before `at` that panicked?
    fn torn(self, k: usize, at: u64) -> bool {
        self.iter().any(|b| b.write && b.panicked && b.kinds.contains(&k) && b.held.is_some_and(|h| h.0 < at))
    }
}

fn register(mut s: Schema<Node>, k: u8, v: u64) -> Schema<Node> {
    macro_rules! reg {
        ($($n:literal),*) => { match k { $($n => s = s.with_resource(<Kind<$n> as Counter>::new(v)),)* _ => {} } };
    }
    reg!(0, 1, 2, 3, 4, 5, 6, 7);
    s
}

impl Family for ResFamily {
    fn generate(&self, _property: &str, rng: &mut Rng) -> serde_json::Value {
        let mut register: Vec<u8> = (0..rng.range(1, 10)).map(|_| rng.below(KINDS as u64) as u8).collect();
        if rng.chance(0.6) {
            register.extend(0..rng.range(2, 7) as u8);
            rng.shuffle(&mut register);
        }
        let panics = *rng.pick(&[0.0, 0.0, 0.1, 0.3]);
        let writes = *rng.pick(&[0.2, 0.5, 0.8]);
        let tuples = *rng.pick(&[0.0, 0.3, 0.6]);
        let narrow = rng.chance(0.5);
        let first = rng.chance(0.1);
        let n = rng.range(2, 4);
        let again: Vec<u8> = if rng.chance(0.12) { (0..rng.range(1, 4)).map(|_| rng.below(KINDS as u64) as u8).collect() } else { vec![] };
        let mut threads = |n: u64, most: u64| -> Vec<Vec<Op>> {
            (0..n)
            .map(|_| {
                (0..rng.range(1, most))
                    .map(|_| Op {
                        combo: if rng.chance(tuples) {
                            rng.range(6, COMBOS.len() as u64 - 1) as u8
                        } else if narrow {
                            rng.below(2) as u8
                        } else {
                            rng.below(6) as u8
                        },
                        write: rng.chance(writes),
                        via: *rng.pick(&[Via::Fresh, Via::Kept, Via::Kept, Via::Tx, Via::Trigger]),
                        panic: rng.chance(panics),
                        exists: rng.chance(0.08),
                    })
                    .collect::<Vec<Op>>()
            })
            .map(|mut ops| {
                for o in &mut ops {
                    o.exists &= COMBOS[o.combo as usize].len() == 1;
                }
                ops
            })
            .collect()
        };
        let n = if first { 1 } else { n };
        let afterwards = if again.is_empty() { vec![] } else { threads(1 + n % 2, 3) };
        let threads = threads(n, 5);
        serde_json::to_value(Scenario { register, threads, again, afterwards }).unwrap()
    }

    fn execute(&self, case: &Case, stats: &mut Stats) -> Result<Outcome, String> {
        let s: Scenario = serde_json::from_value(case.scenario.clone()).map_err(|e| e.to_string())?;
        if s.threads.is_empty() || s.threads.len() > 6 || s.afterwards.len() > 6 {
            return Err("threads".into());
        }
        if s.threads.iter().chain(&s.afterwards).flatten().any(|o| {
            o.combo as usize >= COMBOS.len() || o.exists && COMBOS[o.combo as usize].len() > 1
        }) {
            return Err("operation".into());
        }
        let mut schema = with_trigger(Schema::from(Graph::default()));
        for (i, k) in s.register.iter().enumerate() {
            schema = register(schema, *k, 1000 * (i as u64 + 1));
        }
        let mut all: Vec<Access> = vec![];
        let mut decisions = vec![];
        let mut hash = 0;
        let mut tainted = false;
        let mut stuck = None;
        let mut met = false;
        for (phase, threads) in [&s.threads, &s.afterwards].into_iter().enumerate() {
            if phase == 1 && s.again.is_empty() || threads.is_empty() {
                break;
            }
            if phase == 1 {
                for (i, k) in s.again.iter().enumerate() {
                    schema = register(schema, *k, 1000 * ((s.register.len() + i) as u64 + 1));
                }
            }
            let shared = Arc::new(Shared(schema));
            let out: Arc<Mutex<Vec<Access>>> = Arc::default();
            let bodies = threads
                .iter()
                .enumerate()
                .map(|(t, ops)| {
                    let (schema, out, ops) = (shared.clone(), out.clone(), ops.clone());
                    Box::new(move || {
                        let schema = schema;
                        let kept = lib(|| Handles::new(&schema.0));
                        for op in &ops {
                            simrt::point();
                            let a = access(&schema.0, &kept, t, op);
                            out.lock().unwrap().push(a);
                        }
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            let r = simrt::run(&config(&case.sched, phase), bodies);
            count_run(stats, &r);
            met |= r.preemptions + r.blocked > 0;
            hash ^= (r.hash ^ r.steps).rotate_left(phase as u32);
            let clean = r.clean();
            // Later than everything before.
            let base = all.iter().map(|a| a.end + 1).max().unwrap_or(0);
            let mut new = std::mem::take(&mut *out.lock().unwrap());
            for a in &mut new {
                a.phase = phase;
                a.start += base;
                a.end += base;
                a.held = a.held.map(|h| (h.0 + base, h.1 + base));
            }
            new.sort_by_key(|a| a.start);
            all.extend(new);
            decisions.push(r.decisions);
            if !matches!(r.end, End::Finished) {
                stuck = Some(format!("{:?}: threads {:?} never finish", r.end, r.unfinished));
            }
            let back = if clean { Arc::try_unwrap(shared) } else { Err(shared) };
            match back {
                Ok(s) => schema = s.0,
                Err(shared) => {
                    std::mem::forget(shared);
                    tainted = true;
                    break;
                }
            }
        }
        stats.runs += 1;
        let trace: Vec<String> = all.iter().map(|a| format!("{a:?}")).collect();
        let hash = trace.iter().fold(hash, |h, s| hash_str(h, s));
        let mut faulty = false;
        for a in &all {
            stats.add(if a.write { "updates" } else { "reads" }, 1);
            if a.panicked {
                faulty = true;
                stats.add(if a.write { "fault.panic_in_update" } else { "fault.panic_in_read" }, 1);
            } else if a.held.is_none() && !a.exists {
                stats.add("refused", 1);
            }
            if a.kinds.len() > 1 {
                stats.add("several_at_once", 1);
            }
        }
        if faulty || met {
            stats.nontrivial += 1;
            stats.seen.insert(hash);
        }
        let violation = match stuck {
            None => judge(&s, &all).map(|m| Violation::new("History", m)),
            Some(m) => Some(Violation::new("Stuck", m)),
        };
        Ok(Outcome { violation, hash, decisions, trace, tainted, off_topic: None })
    }

    fn budget(&self, _property: &str, thorough: bool) -> Budget {
        if thorough {
            Budget { runs: 10_000_000, seconds: 600 }
        } else {
            Budget { runs: 400_000, seconds: 70 }
        }
    }

    fn info(&self, _property: &str) -> Info {
        Info {
            rule: "A case is a list of registrations, 1-4 threads reading, updating (in two halves) and asking for resources one or several at a time, in any order, through kept and fresh handles and those given to transactions and triggers, panics inside reads and updates, and a schedule; non-trivial if threads were preempted or waited inside the code or a user function panicked; distinct by observations and scheduling decisions.",
            real: &["plotline::schema::resource, plotline::deref", "std::sync::RwLock (down to the futex call)"],
            stub: &["futex(2)"],
            assumptions: &[
                "memory is sequentially consistent (one thread runs at a time)",
                "Schema is not Sync; the harness asserts it for resources that are",
            ],
        }
    }
}
