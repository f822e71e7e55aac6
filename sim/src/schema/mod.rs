//! Programs of transactions, edits and reads against one schema.

pub mod gen;
pub mod model;
pub mod prog;
pub mod real;

use crate::case::*;
use model::{Class, State};
use prog::*;
use real::{run_action, Record};
use simrt::rng::Rng;
use simrt::{Config, End as RunEnd, RunResult, Strategy};
use std::collections::HashSet;
use std::sync::{Arc, Mutex};

pub struct SchemaFamily;

/// One scheduling strategy per case, drawn from its seed.
pub fn strategy(rng: &mut Rng) -> Strategy {
    match rng.weighted(&[3.0, 5.0, 3.0, 0.5]) {
        0 => Strategy::Points(*rng.pick(&[0.05, 0.2, 0.5, 0.9])),
        1 => Strategy::Gaps(*rng.pick(&[2.0, 8.0, 25.0, 80.0, 300.0, 1500.0])),
        2 => Strategy::Pct { depth: rng.range(1, 5) as u32, len: *rng.pick(&[100, 500, 2000, 8000]) },
        _ => Strategy::Serial,
    }
}

pub fn config(sched: &Sched, run: usize) -> Config {
    match sched {
        Sched::Seed(s) => {
            let mut rng = Rng::derive(*s, &[run as u64]);
            let strategy = strategy(&mut rng);
            Config { seed: rng.next(), strategy, step_limit: LIMIT }
        }
        Sched::Decisions(d) => Config {
            seed: 0,
            strategy: Strategy::Replay(d.get(run).cloned().unwrap_or_default()),
            step_limit: LIMIT,
        },
    }
}
pub const LIMIT: u64 = 20_000_000;

pub fn count_run(stats: &mut Stats, r: &RunResult) {
    stats.steps += r.steps;
    stats.add("sched.switches", r.switches);
    stats.add("sched.preemptions", r.preemptions);
    stats.add("sched.waits", r.blocked);
    if r.preemptions + r.blocked > 0 {
        stats.schedules.insert(r.hash);
    }
}

struct Run {
    records: Vec<Record>,
    main: RunResult,
    probe: Option<RunResult>,
}

fn probe_actions(p: &Program) -> Vec<Action> {
    vec![
        Action::Read { stall: false, panic: None },
        Action::Tx {
            body: vec![
                Step::Scan { lvl: 0 },
                Step::Put { lvl: 0, node: NodeSpec { id: p.ids, val: 999_999, edges: vec![] } },
                Step::Get { lvl: 0, id: p.ids },
            ],
            end: End::Ok,
            early: false,
            pre: None,
        },
        Action::Read { stall: false, panic: None },
    ]
}

fn run(p: &Program, cfg: impl Fn(usize) -> Config) -> Run {
    let schema = real::build(p);
    let out: Arc<Mutex<Vec<Record>>> = Arc::default();
    let single = p.threads.len() == 1;
    let p = Arc::new(p.clone());
    let bodies: Vec<Box<dyn FnOnce() + Send>> = (0..p.threads.len())
        .map(|t| {
            let (p, schema, out) = (p.clone(), schema.clone(), out.clone());
            Box::new(move || {
                for (i, a) in p.threads[t].iter().enumerate() {
                    simrt::point();
                    let f = p.faults.iter().find(|f| f.thread as usize == t && f.action as usize == i);
                    let r = run_action(&schema, t as u8, a, f, p.ids, single);
                    out.lock().unwrap().push(r);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let main = simrt::run(&cfg(0), bodies);
    let mut probe = None;
    if main.end == RunEnd::Finished {
        let (p2, s2, o2) = (p.clone(), schema.clone(), out.clone());
        let base = out.lock().unwrap().iter().map(|r| r.end).max().unwrap_or(0);
        let body = Box::new(move || {
            for a in probe_actions(&p2) {
                let mut r = run_action(&s2, 200, &a, None, p2.ids + 1, single);
                r.start += base;
                r.end += base;
                for e in &mut r.evs {
                    e.0 += base;
                }
                o2.lock().unwrap().push(r);
            }
        });
        let r = simrt::run(&Config { seed: 0, strategy: Strategy::Serial, step_limit: LIMIT }, vec![body]);
        probe = Some(r);
    }
    if probe.as_ref().is_none_or(|r| r.end != RunEnd::Finished) {
        // Its threads are parked inside it for good.
        std::mem::forget(schema);
    }
    let records = std::mem::take(&mut *out.lock().unwrap());
    Run { records, main, probe }
}

/// (class, detail class, message)
type Bad = (Class, Class, String);

fn stuck(r: &Run) -> Option<Bad> {
    let why = |r: &RunResult, what: &str| {
        let m = match r.end {
            RunEnd::Finished => return None,
            RunEnd::Deadlock => format!("{what}: threads {:?} wait for ever", r.unfinished),
            RunEnd::StepLimit => format!("{what}: threads {:?} made no progress in {} steps", r.unfinished, r.steps),
            RunEnd::Hung => format!("{what}: hung"),
        };
        Some((Class::Stuck, Class::Stuck, m))
    };
    why(&r.main, "program").or_else(|| r.probe.as_ref().and_then(|p| why(p, "afterwards")))
}

/// The probe reads one more id than the program used.
fn with_ids(p: &Program, r: &Record) -> Program {
    let mut p = Program { threads: vec![], init: vec![], faults: vec![], ..p.clone() };
    if r.thread == 200 {
        p.ids += 1;
    }
    p
}

fn sequential(p: &Program, r: &Run) -> Option<Bad> {
    let mut state = model::initial(p);
    let mut other = model::initial(p);
    for (i, rec) in r.records.iter().enumerate() {
        let q = with_ids(p, rec);
        let e = model::eval(&q, &rec.action, &state, &other, &rec.evs);
        if let Some((c, m)) = e.mismatch {
            return Some((c, c, format!("action {i} {}: {m}", brief(&rec.action))));
        }
        let mut e = e;
        if let (Some(post), Some(alt)) = (&rec.post, e.alt.take()) {
            let mut got = post.0.clone();
            got.sort();
            if got == alt.values().cloned().collect::<Vec<V>>() {
                e.state = alt;
            }
        }
        if let Some(post) = &rec.post {
            for (which, got, want) in [("", &post.0, &e.state), (" in the other schema", &post.1, &e.other)] {
                let mut got = got.clone();
                got.sort();
                let want: Vec<V> = want.values().cloned().collect();
                if got != want {
                    return Some((
                        Class::State,
                        Class::State,
                        format!("after action {i} {}{which}: expected {want:?}, found {got:?}", brief(&rec.action)),
                    ));
                }
            }
        }
        state = e.state;
        other = e.other;
    }
    None
}

fn brief(a: &Action) -> String {
    let s = serde_json::to_string(a).unwrap();
    if s.len() > 160 {
        format!("{}..", s.chars().take(160).collect::<String>())
    } else {
        s
    }
}

const NODES: u64 = 30_000;

struct Lin<'a> {
    p: Program,
    probe: Program,
    by_thread: Vec<Vec<&'a Record>>,
    memo: HashSet<(Vec<usize>, State)>,
    nodes: u64,
    best: (usize, usize),
    why: Option<(Class, String)>,
}

impl Lin<'_> {
    fn go(&mut self, at: &mut Vec<usize>, state: State) -> bool {
        if at.iter().zip(&self.by_thread).all(|(i, t)| *i == t.len()) {
            return true;
        }
        self.nodes += 1;
        if self.nodes > NODES || !self.memo.insert((at.clone(), state.clone())) {
            return false;
        }
        // What has ended by the time another began comes before it.
        let horizon = (0..at.len()).filter_map(|t| self.by_thread[t].get(at[t])).map(|r| r.end).min().unwrap();
        let mut cand: Vec<(u64, usize)> = (0..at.len())
            .filter_map(|t| self.by_thread[t].get(at[t]).map(|r| (r, t)))
            .filter(|(r, _)| r.start < horizon)
            .map(|(r, t)| (r.evs.first().map(|e| e.0).unwrap_or(r.start), t))
            .collect();
        cand.sort();
        for (_, t) in cand {
            let rec = self.by_thread[t][at[t]];
            let q = if rec.thread == 200 { &self.probe } else { &self.p };
            let e = model::eval(q, &rec.action, &state, &State::new(), &rec.evs);
            match e.mismatch {
                None => {
                    at[t] += 1;
                    if self.go(at, e.state) {
                        return true;
                    }
                    at[t] -= 1;
                }
                Some((c, m)) => {
                    let depth = (at.iter().sum::<usize>(), e.at);
                    if self.why.is_none() || depth > self.best {
                        self.best = depth;
                        self.why = Some((c, format!("thread {} {}: {m}", rec.thread, brief(&rec.action))));
                    }
                }
            }
        }
        false
    }
}

enum Verdict {
    Fine,
    Unknown,
    Bad(Bad),
}

fn linearise(p: &Program, r: &Run) -> Verdict {
    let n = p.threads.len();
    let mut by_thread = vec![Vec::new(); n + 1];
    for rec in &r.records {
        let t = if rec.thread == 200 { n } else { rec.thread as usize };
        by_thread[t].push(rec);
    }
    let bare = Program { threads: vec![], init: vec![], faults: vec![], ..p.clone() };
    let mut l = Lin {
        probe: Program { ids: bare.ids + 1, ..bare.clone() },
        p: bare,
        by_thread,
        memo: HashSet::new(),
        nodes: 0,
        best: (0, 0),
        why: None,
    };
    if l.go(&mut vec![0; n + 1], model::initial(p)) {
        return Verdict::Fine;
    }
    if l.nodes > NODES {
        return Verdict::Unknown;
    }
    let (c, m) = l.why.unwrap_or((Class::Serial, "no order explains the run".into()));
    Verdict::Bad((c, c, m))
}

fn judge(p: &Program, r: &Run) -> Verdict {
    if let Some(b) = stuck(r) {
        return Verdict::Bad(b);
    }
    if p.threads.len() == 1 {
        sequential(p, r).map_or(Verdict::Fine, Verdict::Bad)
    } else {
        linearise(p, r)
    }
}

/// Is a deviation of this kind one from this property?
fn on_topic(prop: &str, class: Class, detail: Class) -> bool {
    use Class::*;
    if class == Stuck {
        return true;
    }
    // What shows only among threads is of the kind of the deviation that explains most of the run.
    let kind = if class == Serial { detail } else { class };
    match prop {
        "C01" => matches!(class, State | Snapshot | Result | Serial | UnexpectedPanic),
        "C02" => matches!(class, Serial | State | Snapshot | Result | Read),
        "C03" => matches!(detail, Read | UnexpectedPanic),
        "C04" => matches!(kind, Read | State | Result | Snapshot | UnexpectedPanic | Serial),
        "C05" => matches!(class, UnexpectedPanic | Waiting | Result | State | Snapshot) || class == Serial && detail != Read,
        "C06" => matches!(kind, Trigger | State | UnexpectedPanic),
        "C07" | "C08" | "C09" => matches!(kind, State | Read | Result | Snapshot | Trigger | UnexpectedPanic),
        "C17" => matches!(class, State | Read | Result | Snapshot | UnexpectedPanic),
        _ => false,
    }
}

fn count(stats: &mut Stats, p: &Program, r: &Run) -> bool {
    let mut interesting = r.main.preemptions + r.main.blocked > 0;
    stats.add("threads", p.threads.len() as u64);
    for rec in &r.records {
        if rec.thread == 200 {
            continue;
        }
        let k = match &rec.action {
            Action::Tx { .. } => "tx",
            Action::Save { .. } => "save",
            Action::Delete { .. } => "delete",
            Action::Read { .. } => "read",
            Action::Edit { .. } => "edit",
            Action::Idle => "idle",
        };
        stats.add(&format!("action.{k}"), 1);
        stats.add("callbacks", rec.callbacks);
        stats.add("fault.panic_in_node_callback", rec.fired);
        for (_, e) in &rec.evs {
            match e {
                Ev::Trig { .. } => stats.add("trigger_runs", 1),
                Ev::Op(Res::Ok(_)) => stats.add("nested.ok", 1),
                Ev::Op(Res::Err(_)) => {
                    interesting = true;
                    stats.add("fault.nested_error", 1)
                }
                Ev::Op(Res::Panic(_)) => {
                    interesting = true;
                    stats.add("fault.nested_panic_contained", 1)
                }
                Ev::Waiting(_) => stats.add("fault.stalled_thread", 1),
                Ev::End(Res::Ok(_)) => stats.add("ended.ok", 1),
                Ev::End(Res::Err(s)) => {
                    interesting = true;
                    stats.add(if s == "abandoned" { "fault.abandoned" } else if s == "noop" { "ended.noop" } else { "fault.body_or_trigger_error" }, 1)
                }
                Ev::End(Res::Panic(s)) => {
                    interesting = true;
                    if s != CB_PANIC {
                        stats.add("fault.panic_in_user_code", 1)
                    }
                }
                _ => {}
            }
        }
        if matches!(rec.action, Action::Tx { end: End::Leak, .. }) {
            stats.add("fault.leaked_context", 1);
        }
    }
    interesting
}

fn trace(r: &Run) -> Vec<String> {
    let mut evs: Vec<(u64, String)> = Vec::new();
    for rec in &r.records {
        let t = if rec.thread == 200 { "probe".to_string() } else { format!("thread {}", rec.thread) };
        evs.push((rec.start, format!("{t} starts {}", brief(&rec.action))));
        for (n, e) in &rec.evs {
            evs.push((*n, format!("{t}   {e:?}")));
        }
        if let Some(p) = &rec.post {
            evs.push((rec.end, format!("graph {:?}", p.0)));
        }
    }
    evs.sort();
    evs.into_iter().map(|(n, s)| format!("{n:4} {s}")).collect()
}

impl Family for SchemaFamily {
    fn generate(&self, property: &str, rng: &mut Rng) -> serde_json::Value {
        serde_json::to_value(gen::program(property, rng)).unwrap()
    }

    fn execute(&self, case: &Case, stats: &mut Stats) -> Result<Outcome, String> {
        let p: Program = serde_json::from_value(case.scenario.clone()).map_err(|e| e.to_string())?;
        gen::valid(&p)?;
        let r = run(&p, |i| config(&case.sched, i));
        stats.runs += 1;
        count_run(stats, &r.main);
        let interesting = count(stats, &p, &r);
        let mut tainted = !r.main.clean() || r.probe.as_ref().is_none_or(|r| !r.clean());
        let t = trace(&r);
        let hash = t.iter().fold(r.main.hash ^ r.main.steps, |h, s| hash_str(h, s));
        if interesting {
            stats.nontrivial += 1;
            stats.seen.insert(hash);
        }
        let mut out = Outcome { hash, tainted, decisions: vec![r.main.decisions.clone()], trace: t, ..Default::default() };
        match judge(&p, &r) {
            Verdict::Fine => {}
            Verdict::Unknown => stats.add("undecided_histories", 1),
            Verdict::Bad((mut class, detail, msg)) => {
                if p.threads.len() > 1 && !matches!(class, Class::Stuck | Class::Waiting) {
                    // Only what a serial run does not show as well is due to concurrency.
                    let serial = run(&p, |_| Config { seed: 0, strategy: Strategy::Serial, step_limit: LIMIT });
                    tainted |= !serial.main.clean();
                    if let Verdict::Fine = judge(&p, &serial) {
                        class = Class::Serial;
                    }
                }
                let text = format!("{class:?}/{detail:?}");
                if on_topic(&case.property, class, detail) {
                    out.violation = Some(Violation::new(&text, msg));
                } else {
                    stats.add(&format!("off_topic.{text}"), 1);
                    out.off_topic = Some(format!("{text}: {msg}"));
                }
            }
        }
        out.tainted = tainted;
        if out.violation.is_none() && out.off_topic.is_none() {
            out.trace.clear();
        }
        Ok(out)
    }

    fn budget(&self, property: &str, thorough: bool) -> Budget {
        let _ = property;
        if thorough {
            Budget { runs: 4_000_000, seconds: 600 }
        } else {
            Budget { runs: 250_000, seconds: 70 }
        }
    }

    fn info(&self, property: &str) -> Info {
        gen::info(property)
    }
}
