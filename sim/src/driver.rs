//! Seeded search over cases in worker processes, minimisation, replay, evidence.

use crate::case::*;
use crate::shrink;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::rng::Rng;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// Cases run in the same process before the one in question, where that matters.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prelude {
    pub seed: u64,
    pub from: u64,
    pub stride: u64,
    pub until: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReplayFile {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub class: String,
    pub message: String,
    pub case: Case,
    pub prelude: Option<Prelude>,
    pub hash: u64,
    pub trace: Vec<String>,
}

#[derive(Serialize, Deserialize)]
struct Found {
    index: u64,
    first: u64,
    case: Case,
    outcome: Outcome,
}

pub fn case_at(f: &dyn Family, prop: &str, seed: u64, index: u64) -> Case {
    let p = hash_str(0, prop);
    let mut rng = Rng::derive(seed, &[p, index]);
    let sched = Sched::Seed(rng.next());
    let scenario = f.generate(prop, &mut rng);
    let clock = if rng.chance(0.3) { 0 } else { rng.next() >> 1 | 1 };
    Case { property: prop.into(), scenario, sched, clock }
}

/// On the simulated clocks.
fn execute(f: &dyn Family, case: &Case, st: &mut Stats) -> Result<Outcome, String> {
    simrt::clock::start(case.clock);
    let r = f.execute(case, st);
    let c = simrt::clock::stop();
    st.simulated_ns += c.passed as u128;
    st.add("fault.clock_leap", c.leaps);
    st.add("fault.wall_clock_set", c.wall_sets);
    st.add("clock.reads", c.reads);
    r
}

// ---------------------------------------------------------------- processes

fn fork(child: impl FnOnce() -> i32) -> i32 {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
        let c = std::panic::catch_unwind(std::panic::AssertUnwindSafe(child)).unwrap_or(70);
        unsafe { libc::_exit(c) };
    }
    pid
}

enum Exit {
    Code(i32),
    Signal(i32),
    Timeout,
}

fn poll(pid: i32) -> Option<Exit> {
    let mut st = 0;
    let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
    if r == 0 {
        return None;
    }
    if libc::WIFEXITED(st) {
        Some(Exit::Code(libc::WEXITSTATUS(st)))
    } else {
        Some(Exit::Signal(libc::WTERMSIG(st)))
    }
}

fn wait(pid: i32, limit: Duration) -> Exit {
    let t = Instant::now();
    let mut nap = 200;
    loop {
        if let Some(e) = poll(pid) {
            return e;
        }
        if t.elapsed() > limit {
            unsafe { libc::kill(pid, libc::SIGKILL) };
            while poll(pid).is_none() {
                std::thread::sleep(Duration::from_millis(1));
            }
            return Exit::Timeout;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(5000);
    }
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        let p = std::env::temp_dir().join(format!("plsim-{}-{}", tag, std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn start_isolated(f: &dyn Family, case: &Case, pre: &Option<Prelude>, out: &Path) -> i32 {
    fork(|| {
        f.prepare();
        let mut st = Stats::default();
        if let Some(p) = pre {
            let mut i = p.from;
            while i < p.until {
                let _ = execute(f, &case_at(f, &case.property, p.seed, i), &mut st);
                i += p.stride;
            }
        }
        match execute(f, case, &mut st) {
            Ok(o) => {
                std::fs::write(out, serde_json::to_vec(&o).unwrap()).unwrap();
                0
            }
            Err(_) => 3,
        }
    })
}

fn end_isolated(pid: i32, out: &Path, limit: Duration) -> Option<Outcome> {
    let lost = |class: &str, m: String| Outcome { violation: Some(Violation::new(class, m)), ..Default::default() };
    let r = match wait(pid, limit) {
        Exit::Code(0) => std::fs::read(out).ok().and_then(|b| serde_json::from_slice(&b).ok()),
        Exit::Code(_) => None,
        Exit::Signal(s) => Some(lost("Abort", format!("the process died of signal {s}"))),
        Exit::Timeout => Some(lost("Hung", "no progress".into())),
    };
    let _ = std::fs::remove_file(out);
    r
}

/// Runs one case in a process of its own.
pub fn isolated(f: &dyn Family, case: &Case, pre: &Option<Prelude>, dir: &Path) -> Option<Outcome> {
    let out = dir.join("one.json");
    let pid = start_isolated(f, case, pre, &out);
    end_isolated(pid, &out, Duration::from_secs(150))
}

/// Runs the cases in parallel, each in its own process.
fn batch(f: &dyn Family, cases: &[Case], pre: &Option<Prelude>, dir: &Path) -> Vec<Option<Outcome>> {
    let pids: Vec<_> = cases
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let out = dir.join(format!("b{i}.json"));
            (start_isolated(f, c, pre, &out), out)
        })
        .collect();
    pids.into_iter().map(|(p, o)| end_isolated(p, &o, Duration::from_secs(90))).collect()
}

// ---------------------------------------------------------------- search

pub struct Slot {
    next: AtomicU64,
    beat: AtomicU64,
}
struct SharedMem {
    stop: AtomicU64,
    slots: [Slot; 64],
}

fn shared() -> &'static SharedMem {
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<SharedMem>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    unsafe { &*(p as *const SharedMem) }
}

#[allow(clippy::too_many_arguments)]
fn worker(
    f: &dyn Family,
    prop: &str,
    seed: u64,
    runs: u64,
    deadline: Instant,
    w: usize,
    n: u64,
    mem: &SharedMem,
    known: &[(String, String)],
    dir: &Path,
    life: u64,
) -> i32 {
    f.prepare();
    let slot = &mem.slots[w];
    let first = slot.next.load(SeqCst);
    let mut st = Stats::default();
    let mut code = 0;
    loop {
        let i = slot.next.load(SeqCst);
        if i >= runs || mem.stop.load(SeqCst) != 0 || Instant::now() > deadline {
            break;
        }
        slot.beat.fetch_add(1, SeqCst);
        let case = case_at(f, prop, seed, i);
        match execute(f, &case, &mut st) {
            Err(e) => {
                eprintln!("harness: generated case {i} is not well-formed: {e}");
                st.harness_errors += 1;
            }
            Ok(o) => {
                let finding = o.violation.as_ref().and_then(|v| v.finding.clone());
                let listed = finding.as_ref().is_some_and(|k| known.iter().any(|(p, n)| p == prop && n == k));
                if listed {
                    *st.findings.entry(finding.unwrap()).or_default() += 1;
                } else if o.violation.is_some() {
                    let found = Found { index: i, first, case, outcome: o };
                    std::fs::write(dir.join(format!("found-{w}.json")), serde_json::to_vec(&found).unwrap()).unwrap();
                    mem.stop.store(1, SeqCst);
                    slot.next.store(i + n, SeqCst);
                    break;
                }
                if o.tainted {
                    slot.next.store(i + n, SeqCst);
                    code = 4;
                    break;
                }
            }
        }
        slot.next.store(i + n, SeqCst);
    }
    let (hit, all) = simrt::coverage();
    st.edges_hit = hit as u64;
    st.edges = all as u64;
    std::fs::write(dir.join(format!("stats-{w}-{life}.json")), serde_json::to_vec(&st).unwrap()).unwrap();
    code
}

struct Search {
    stats: Stats,
    found: Option<Found>,
    workers: u64,
    abandoned: bool,
}

fn search(f: &dyn Family, prop: &str, seed: u64, b: &Budget, start: u64, known: &[(String, String)], dir: &Path) -> Search {
    let n = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(1, 16);
    let mem = shared();
    for w in 0..n as usize {
        mem.slots[w].next.store(start + w as u64, SeqCst);
    }
    let deadline = Instant::now() + Duration::from_secs(b.seconds);
    let mut life = 0;
    let spawn = |w: usize, life: u64| {
        fork(|| worker(f, prop, seed, b.runs, deadline, w, n, mem, known, dir, life))
    };
    let mut live: Vec<(usize, i32, u64, Instant)> = (0..n as usize).map(|w| (w, spawn(w, 0), 0, Instant::now())).collect();
    let mut lost: Option<Found> = None;
    let mut abandoned = false;
    while !live.is_empty() {
        std::thread::sleep(Duration::from_millis(3));
        let mut k = 0;
        while k < live.len() {
            let (w, pid, beat, since) = live[k];
            let now = mem.slots[w].beat.load(SeqCst);
            if now != beat {
                live[k] = (w, pid, now, Instant::now());
            }
            let mut died = None;
            match poll(pid) {
                None => {
                    if now == beat && since.elapsed() > Duration::from_secs(100) {
                        unsafe { libc::kill(pid, libc::SIGKILL) };
                        while poll(pid).is_none() {}
                        died = Some(("Hung", "no progress".to_string()));
                    } else {
                        k += 1;
                        continue;
                    }
                }
                Some(Exit::Code(0)) => {
                    live.remove(k);
                    continue;
                }
                Some(Exit::Code(4)) => {
                    life += 1;
                    live[k] = (w, spawn(w, life), now, Instant::now());
                    k += 1;
                    continue;
                }
                Some(Exit::Code(c)) => {
                    eprintln!("harness: worker {w} ended with {c}");
                    abandoned = true;
                    live.remove(k);
                    continue;
                }
                Some(Exit::Signal(s)) => died = Some(("Abort", format!("the process died of signal {s}"))),
                Some(Exit::Timeout) => {}
            }
            let i = mem.slots[w].next.load(SeqCst);
            let (class, msg) = died.unwrap();
            mem.stop.store(1, SeqCst);
            lost = Some(Found {
                index: i,
                first: i,
                case: case_at(f, prop, seed, i),
                outcome: Outcome { violation: Some(Violation::new(class, msg)), ..Default::default() },
            });
            live.remove(k);
        }
    }
    let mut stats = Stats::default();
    let mut found = lost;
    for e in std::fs::read_dir(dir).unwrap().flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        let bytes = std::fs::read(e.path()).unwrap();
        if name.starts_with("stats-") {
            stats.merge(serde_json::from_slice(&bytes).unwrap());
        } else if name.starts_with("found-") {
            let x: Found = serde_json::from_slice(&bytes).unwrap();
            if found.as_ref().is_none_or(|y| x.index < y.index) {
                found = Some(x);
            }
        } else {
            continue;
        }
        let _ = std::fs::remove_file(e.path());
    }
    Search { stats, found, workers: n, abandoned }
}

// ---------------------------------------------------------------- minimisation

fn same(o: &Option<Outcome>, v: &Violation) -> bool {
    o.as_ref()
        .and_then(|o| o.violation.as_ref())
        .is_some_and(|x| x.class == v.class && x.finding == v.finding)
}

/// Shrinks the scenario, then the schedule; keeps the violation class.
fn minimise(f: &dyn Family, found: &Found, seed: u64, stride: u64, dir: &Path) -> Option<(Case, Option<Prelude>, Outcome)> {
    let v = found.outcome.violation.clone().unwrap();
    let mut case = found.case.clone();
    let mut pre = None;
    let mut best = None;
    for _ in 0..2 {
        let o = isolated(f, &case, &pre, dir);
        if same(&o, &v) {
            best = o;
            break;
        }
    }
    if best.is_none() {
        // Something outlives a run: look for the shortest suffix of earlier cases that matters.
        let mut k = 1;
        loop {
            let from = found.index.saturating_sub(k * stride).max(found.first);
            let p = Some(Prelude { seed, from, stride, until: found.index });
            let o = isolated(f, &case, &p, dir);
            if same(&o, &v) {
                best = o;
                pre = p;
                break;
            }
            if from == found.first {
                break;
            }
            k *= 2;
        }
    }
    let mut best = best?;
    if case.clock != 0 {
        let still = Case { clock: 0, ..case.clone() };
        let o = isolated(f, &still, &pre, dir);
        if same(&o, &v) {
            case = still;
            best = o.unwrap();
        }
    }
    let t = Instant::now();
    let limit = Duration::from_secs(if v.class == "Hung" { 1 } else { 60 });
    let seeds: Vec<u64> = match case.sched {
        Sched::Seed(s) => (0..8).map(|i| if i == 0 { s } else { simrt::rng::mix(s ^ i) }).collect(),
        _ => vec![],
    };
    let concurrent = found.outcome.decisions.iter().any(|d| d.len() > 1);
    'outer: loop {
        for c in shrink::candidates(&case.scenario).chunks(if concurrent { 2 } else { 8 }) {
            if t.elapsed() > limit {
                break 'outer;
            }
            let mut cases = Vec::new();
            for s in c {
                for x in seeds.iter().take(if concurrent { 4 } else { 1 }) {
                    cases.push(Case { scenario: s.clone(), sched: Sched::Seed(*x), ..case.clone() });
                }
            }
            for (c, o) in cases.iter().zip(batch(f, &cases, &pre, dir)) {
                if same(&o, &v) && serde_json::to_string(&c.scenario).unwrap() != serde_json::to_string(&case.scenario).unwrap() {
                    case = c.clone();
                    best = o.unwrap();
                    continue 'outer;
                }
            }
        }
        break;
    }
    // From the seed to explicit decisions, then fewer of them.
    let lists = Case { sched: Sched::Decisions(best.decisions.clone()), ..case.clone() };
    let o = isolated(f, &lists, &pre, dir);
    if same(&o, &v) {
        case = lists;
        best = o.unwrap();
        let t = Instant::now();
        'sched: loop {
            let Sched::Decisions(d) = &case.sched else { break };
            for c in shrink::schedules(d).chunks(8) {
                if t.elapsed() > Duration::from_secs(40) {
                    break 'sched;
                }
                let cases: Vec<_> =
                    c.iter().map(|d| Case { sched: Sched::Decisions(d.clone()), ..case.clone() }).collect();
                for (c, o) in cases.iter().zip(batch(f, &cases, &pre, dir)) {
                    if same(&o, &v) {
                        case = c.clone();
                        best = o.unwrap();
                        continue 'sched;
                    }
                }
            }
            break;
        }
    }
    Some((case, pre, best))
}

// ---------------------------------------------------------------- commands

fn root() -> PathBuf {
    PathBuf::from(std::env::var("PLSIM_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// `property=<id> key=<key> <text>` lines not starting with `fixed:` or `#`.
fn known_findings() -> Vec<(String, String, String)> {
    let Ok(s) = std::fs::read_to_string(root().join("known-findings.txt")) else {
        return vec![];
    };
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let mut w = l.splitn(3, ' ');
            let p = w.next()?.strip_prefix("property=")?;
            let k = w.next()?.strip_prefix("key=")?;
            Some((p.into(), k.into(), w.next().unwrap_or("").into()))
        })
        .collect()
}

pub fn check(f: &dyn Family, prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let mut b = f.budget(prop, thorough);
    if let Some(n) = std::env::var("PLSIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        b.runs = n;
    }
    if let Some(n) = std::env::var("PLSIM_SECONDS").ok().and_then(|s| s.parse().ok()) {
        b.seconds = n;
    }
    println!("{prop}: seed {seed}, tier {tier}, up to {} runs", b.runs);
    let dir = Scratch::new(prop);
    let known_all = known_findings();
    let known: Vec<(String, String)> = known_all.iter().map(|k| (k.0.clone(), k.1.clone())).collect();

    // Determinism of the machinery itself: the same cases in other processes, one at a time.
    let sample = 32.min(b.runs);
    let mut same_hash = 0;
    let cases: Vec<Case> = (0..sample).map(|i| case_at(f, prop, seed, i)).collect();
    for c in cases.chunks(8) {
        let a = batch(f, c, &None, &dir.0);
        let b = batch(f, c, &None, &dir.0);
        same_hash += a.iter().zip(&b).filter(|(x, y)| x.as_ref().map(|o| o.hash) == y.as_ref().map(|o| o.hash)).count();
    }
    if same_hash as u64 != sample {
        println!("note: {} of {sample} cases ran differently when repeated", sample - same_hash as u64);
    }

    let ts = Instant::now();
    let mut s = search(f, prop, seed, &b, 0, &known, &dir.0);
    // A violation that cannot be repeated is none: something the simulator does not decide had a part in it.
    let mut reproduced = None;
    let mut lost = 0;
    while let Some(found) = &s.found {
        let v = found.outcome.violation.as_ref().unwrap();
        println!("case {}: {}: {}", found.index, v.class, v.message);
        reproduced = minimise(f, found, seed, s.workers, &dir.0);
        if reproduced.is_some() {
            break;
        }
        println!("note: the violation did not reproduce in a fresh process; not reported");
        lost += 1;
        let left = b.seconds.saturating_sub(ts.elapsed().as_secs());
        if lost > 5 || left == 0 || s.abandoned {
            break;
        }
        let rest = Budget { runs: b.runs, seconds: left };
        let next = search(f, prop, seed, &rest, found.index + 1, &known, &dir.0);
        let before = std::mem::replace(&mut s, next);
        s.stats.merge(before.stats);
        s.abandoned |= before.abandoned;
    }
    let secs = ts.elapsed().as_secs_f64().max(1e-3);
    let st = &s.stats;
    let mut violations = 0;
    let mut code = 0;
    if let Some(found) = &s.found {
        match reproduced {
            None if lost > 5 => {
                eprintln!("harness: case {} of {prop} does not replay, nor did {} before it", found.index, lost - 1);
                code = 2;
            }
            None => {}
            Some((case, prelude, o)) => {
                violations = 1;
                let v = o.violation.clone().unwrap();
                let file = ReplayFile {
                    property: prop.into(),
                    seed,
                    index: found.index,
                    class: v.class.clone(),
                    message: v.message.clone(),
                    case,
                    prelude,
                    hash: o.hash,
                    trace: o.trace.clone(),
                };
                let rdir = root().join("replays");
                let _ = std::fs::create_dir_all(&rdir);
                let path = rdir.join(format!("{prop}-{seed}-{}.json", found.index));
                std::fs::write(&path, serde_json::to_vec_pretty(&file).unwrap()).unwrap();
                let again = std::process::Command::new(std::env::current_exe().unwrap())
                    .arg("replay")
                    .arg(&path)
                    .output();
                let exact = again.is_ok_and(|o| o.status.code() == Some(1));
                println!("minimised: {}: {}", v.class, v.message);
                for l in o.trace.iter().take(60) {
                    println!("  {l}");
                }
                println!("replayed in a fresh process: {}", if exact { "same violation" } else { "DIFFERENT" });
                println!("VIOLATION property={prop} replay={}", path.display());
                code = 1;
            }
        }
    }
    for (k, n) in &st.findings {
        if let Some(x) = known_all.iter().find(|x| x.0 == prop && &x.1 == k) {
            println!("KNOWN-FINDING: property={prop} {} ({} runs)", x.2, n);
        }
    }
    if s.abandoned || st.harness_errors > 0 {
        eprintln!("harness: errors in the machinery");
        if code == 0 {
            code = 2;
        }
    }
    let info = f.info(prop);
    let samples: Vec<Value> = (0..2.min(sample)).map(|i| serde_json::to_value(&cases[i as usize]).unwrap()).collect();
    let faults: serde_json::Map<String, Value> =
        st.counts.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, n)| (k[6..].to_string(), json!(n))).collect();
    let other: serde_json::Map<String, Value> =
        st.counts.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, n)| (k.clone(), json!(n))).collect();
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.seen.len(),
            "rule": info.rule,
            "samples": samples,
            "nontrivial_runs": st.nontrivial,
            "distinct_schedules": st.schedules.len(),
            "runs_per_hour": (st.runs as f64 / secs * 3600.0) as u64,
            "seeds": st.runs,
            "search_seconds": secs,
            "workers": s.workers,
            "not_repeatable": lost,
            "simulated_time": {
                "seconds": (st.simulated_ns / 1_000_000) as f64 / 1000.0,
                "scheduling_points": st.steps,
                "scheduling_points_per_run": st.steps as f64 / st.runs.max(1) as f64,
            },
            "faults_injected": faults,
            "workload": other,
            "code_edges_reached_under_scheduler": {"hit": st.edges_hit, "of_all_instrumented": st.edges},
            "determinism_self_test": {"cases": sample, "identical_when_repeated": same_hash},
            "known_findings_hit": st.findings,
            "real_components": info.real,
            "stub_components": info.stub,
        },
        "assumptions": info.assumptions,
    });
    let edir = root().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(edir.join(format!("{prop}.json")), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{prop}: {} runs ({} distinct non-trivial, {} distinct schedules) in {:.1} s, {} violation(s)",
        st.runs,
        st.seen.len(),
        st.schedules.len(),
        secs,
        violations
    );
    code
}

pub fn replay(find: impl Fn(&str) -> Box<dyn Family>, path: &str) -> i32 {
    let b = std::fs::read(path).expect("replay file");
    let r: ReplayFile = serde_json::from_slice(&b).expect("replay file");
    let f = find(&r.property);
    let dir = Scratch::new("replay");
    let o = isolated(&*f, &r.case, &r.prelude, &dir.0);
    match o.and_then(|o| o.violation.clone().map(|v| (o, v))) {
        Some((o, v)) => {
            for l in &o.trace {
                println!("  {l}");
            }
            println!("{}: {}", v.class, v.message);
            if v.class == r.class && o.hash == r.hash {
                println!("identical to the recorded execution");
            } else {
                println!("differs from the recorded execution ({}, {:x} / {:x})", r.class, r.hash, o.hash);
            }
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Runs the first `n` cases of several seeds under different worker layouts and compares.
pub fn determinism(f: &dyn Family, prop: &str, n: u64) -> i32 {
    let dir = Scratch::new("det");
    let mut bad = 0;
    for seed in [1u64, 2, 77, 123456789] {
        let cases: Vec<Case> = (0..n).map(|i| case_at(f, prop, seed, i)).collect();
        let mut alone = Vec::new();
        for c in cases.chunks(8) {
            alone.extend(batch(f, c, &None, &dir.0).into_iter().map(|o| o.map(|o| o.hash)));
        }
        // All of them in one process, in order.
        let out = dir.0.join("seq.json");
        let pid = fork(|| {
            f.prepare();
            let mut st = Stats::default();
            let mut h = Vec::new();
            for c in &cases {
                let o = execute(f, c, &mut st).ok();
                let taint = o.as_ref().is_some_and(|o| o.tainted);
                h.push(o.map(|o| o.hash));
                if taint {
                    break;
                }
            }
            std::fs::write(&out, serde_json::to_vec(&h).unwrap()).unwrap();
            0
        });
        wait(pid, Duration::from_secs(600));
        let seq: Vec<Option<u64>> = serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap();
        for (i, (a, b)) in alone.iter().zip(&seq).enumerate() {
            if a != b {
                bad += 1;
                println!("{prop} seed {seed} case {i}: {a:?} / {b:?}");
            }
        }
    }
    println!("{prop}: {} differences in {} cases", bad, n * 4);
    (bad > 0) as i32
}
