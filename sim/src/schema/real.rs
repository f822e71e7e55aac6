//! Runs programs against the real schema on simulated threads.

use super::prog::*;
use plotline::deref::{TryDeref, With, WithMut};
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::plugin::Plugin;
use plotline::schema::resource::Res as Resource;
use plotline::schema::transaction::{Context, Ctx, Target, Transaction};
use plotline::schema::trigger::Trigger;
use plotline::schema::{Error, Result, Schema};
use simrt::{lib, user};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub struct Custom0;
pub struct Custom1;
pub struct Present(pub u32);
pub struct Absent;

/// A schema shared by simulated threads.
///
/// The schema's state sits behind its own locks; it is only not `Sync` because resources and
/// triggers are type-erased without requiring it. Everything registered here is `Send + Sync`.
///
/// The second one is only there to be used within transactions on the first.
pub struct Shared(pub Schema<SimNode>, pub Schema<SimNode>);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

struct Frame<'a> {
    ctx: &'a Context<'a, SimNode>,
    up: Option<&'a Frame<'a>>,
}

impl<'a> Frame<'a> {
    fn at(&self, lvl: u8) -> &Frame<'a> {
        match self.up {
            Some(up) if lvl > 0 => up.at(lvl - 1),
            _ => self,
        }
    }
}

thread_local! {
    /// Targets that triggers of the current action kept.
    static KEPT: RefCell<Vec<Target<SimNode>>> = const { RefCell::new(Vec::new()) };
    /// The other schema, while an action runs.
    static OTHER: Cell<*const Schema<SimNode>> = const { Cell::new(std::ptr::null()) };
}

fn err(n: u32) -> Error {
    Error::custom(format!("E{n}"))
}

pub fn text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}

fn res(r: &Result<u32>) -> Res {
    match r {
        Ok(n) => Res::Ok(*n),
        Err(Error::Noop) => Res::Err("noop".into()),
        Err(Error::Msg(s)) => Res::Err(s.clone()),
    }
}

/// Runs a nested operation and meets its failure as told.
fn meet(m: Meet, run: impl FnOnce() -> Result<u32>) -> Result<()> {
    let r = if m.contained {
        catch_unwind(AssertUnwindSafe(run))
    } else {
        Ok(run())
    };
    match r {
        Ok(r) => {
            log(Ev::Op(res(&r)));
            match r {
                Err(e) if m.forward => Err(e),
                _ => Ok(()),
            }
        }
        Err(p) => {
            let t = text(&*p);
            if t == CB_PANIC {
                resume_unwind(p);
            }
            log(Ev::Op(Res::Panic(t)));
            if m.forward {
                Err(Error::custom("contained"))
            } else {
                Ok(())
            }
        }
    }
}

/// The body of a transaction, at any level.
fn body(ctx: Context<'_, SimNode>, up: Option<&Frame<'_>>, steps: &[Step], end: &End, ok: u32, ids: u16) -> Result<u32> {
    {
        let f = Frame { ctx: &ctx, up };
        run_steps(&f, steps, ids)?;
    }
    match end {
        End::Err(n) => Err(err(*n)),
        End::Panic(n) => panic_any(format!("P{n}")),
        End::Leak => {
            std::mem::forget(ctx);
            Ok(ok)
        }
        _ => Ok(ok),
    }
}

fn nested(on: &Frame<'_>, steps: &[Step], end: &End, ids: u16) -> Result<u32> {
    lib(|| {
        let tx = on.ctx.transaction();
        if *end == End::Abandon {
            let ctx = Context::from(&tx);
            return user(|| {
                let f = Frame { ctx: &ctx, up: Some(on) };
                run_steps(&f, steps, ids)?;
                Err(Error::custom("abandoned"))
            });
        }
        tx.with(|ctx| user(|| body(ctx, Some(on), steps, end, 7, ids)))
    })
}

/// The successors of a node and theirs: identity, value, existence.
fn walk<S: Source<Node = SimNode>>(p: NodeProxy<'_, S>) -> Vec<(u16, Option<V>, bool)> {
    let mut out = Vec::new();
    for a in p.successors::<Edge>() {
        out.push((a.id.0, a.try_deref().map(|n| n.v()), a.is_virtual()));
        for b in a.successors::<Edge>() {
            out.push((b.id.0, b.try_deref().map(|n| n.v()), b.is_virtual()));
        }
    }
    out
}

fn handle<S: Source<Node = SimNode>>(id: u16, p: NodeProxy<'_, S>) -> Ev {
    let v = p.try_deref().map(|n| n.v());
    Ev::Handle(id, v, p.is_virtual(), p.successors::<Edge>().iter().map(|s| s.id.0).collect())
}

fn run_steps(f: &Frame<'_>, steps: &[Step], ids: u16) -> Result<()> {
    for s in steps {
        simrt::point();
        match s {
            Step::Put { lvl, node } => lib(|| f.at(*lvl).ctx.save(SimNode::new(node))),
            Step::Del { lvl, id } => lib(|| f.at(*lvl).ctx.delete(SimId(*id))),
            Step::Many { lvl, n, seed } => {
                let on = f.at(*lvl).ctx;
                for e in many(*n, *seed, ids) {
                    match e {
                        Edit::Put(n) => lib(|| on.save(SimNode::new(&n))),
                        Edit::Del(id) => lib(|| on.delete(SimId(id))),
                        _ => unreachable!(),
                    }
                }
            }
            Step::Get { lvl, id } => {
                let v = lib(|| f.at(*lvl).ctx.get(&SimId(*id)));
                log(Ev::Get(*id, v.map(|n| n.v())));
            }
            Step::Has { lvl, id } => {
                let v = lib(|| f.at(*lvl).ctx.contains(&SimId(*id)));
                log(Ev::Has(*id, v));
            }
            Step::Handle { lvl, id } => {
                log(lib(|| handle(*id, f.at(*lvl).ctx.node(SimId(*id)))));
            }
            Step::Walk { lvl, id } => {
                let w = lib(|| walk(f.at(*lvl).ctx.node(SimId(*id))));
                log(Ev::Walk(*id, w));
            }
            Step::Scan { lvl } => {
                let ctx = f.at(*lvl).ctx;
                let all = (0..ids)
                    .map(|i| {
                        let v = lib(|| ctx.get(&SimId(i)));
                        (i, v.map(|n| n.v()), lib(|| ctx.contains(&SimId(i))))
                    })
                    .collect();
                log(Ev::Scan(all));
            }
            Step::Nested { lvl, body, end, meet: m } => {
                let on = f.at(*lvl);
                meet(*m, || nested(on, body, end, ids))?;
            }
            Step::Other { body: steps, end, meet: m } => {
                // Set by `run_action` for as long as the action runs.
                let other = unsafe { &*OTHER.get() };
                meet(*m, || other_tx(other, steps, end, ids))?;
            }
            Step::Late(x) => {
                let kept = KEPT.with(|k| k.borrow().clone());
                for t in &kept {
                    lib(|| t.with_mut(|n| user(|| n.tags.push(*x))));
                }
                lib(|| drop(kept));
            }
            Step::Save { lvl, node, meet: m } => {
                let on = f.at(*lvl).ctx;
                meet(*m, || lib(|| Save::new(SimNode::new(node)).execute(on.transaction())).map(|_| 0))?;
            }
            Step::Delete { lvl, id, meet: m } => {
                let on = f.at(*lvl).ctx;
                meet(*m, || lib(|| Delete::new(SimId(*id)).execute(on.transaction())).map(|_| 0))?;
            }
            Step::Select { lvl, event, meet: m } => {
                let on = f.at(*lvl).ctx;
                meet(*m, || lib(|| select(on, *event)).map(|_| 0))?;
            }
        }
    }
    Ok(())
}

fn other_tx(schema: &Schema<SimNode>, steps: &[Step], end: &End, ids: u16) -> Result<u32> {
    // It commits while the transaction around it is open: no injected panics meanwhile.
    struct Rearm(bool);
    impl Drop for Rearm {
        fn drop(&mut self) {
            ARMED.set(self.0);
        }
    }
    let _r = Rearm(ARMED.replace(false));
    lib(|| {
        let tx = schema.transaction();
        if *end == End::Abandon {
            let ctx = Context::from(&tx);
            return user(|| {
                run_steps(&Frame { ctx: &ctx, up: None }, steps, ids)?;
                Err(Error::custom("abandoned"))
            });
        }
        tx.with(|ctx| user(|| body(ctx, None, steps, end, 7, ids)))
    })
}

fn select(ctx: &Context<'_, SimNode>, event: Event) -> Result<()> {
    match event {
        Event::BeforeSave => ctx.triggers().select(BeforeSave).execute(ctx),
        Event::AfterSave => ctx.triggers().select(AfterSave).execute(ctx),
        Event::BeforeDelete => ctx.triggers().select(BeforeDelete).execute(ctx),
        Event::AfterDelete => ctx.triggers().select(AfterDelete).execute(ctx),
        Event::Custom0 => ctx.triggers().select(Custom0).execute(ctx),
        Event::Custom1 => ctx.triggers().select(Custom1).execute(ctx),
    }
}

// ---------------------------------------------------------------- triggers

fn run_trigger(t: &Trig, (ids, reenter): Limits, ctx: &Ctx<'_, SimNode>, target: Option<Target<SimNode>>, resources_ok: bool) -> Result<()> {
    simrt::point();
    let seen = target.as_ref().and_then(|t| lib(|| t.with(|n| user(|| n.v()))));
    let sees = match &seen {
        Some(v) => {
            let id = v.id;
            let r = lib(|| ctx.transaction().with(|c| Ok(c.get(&SimId(id)).map(|n| n.v()))));
            match r {
                Ok(v) => Some(v),
                Err(_) => Some(None),
            }
        }
        None => None,
    };
    let cond = match t.only {
        None => true,
        Some(id) => seen.as_ref().is_some_and(|v| v.id == id),
    };
    log(Ev::Trig { trig: t.id + if resources_ok { 0 } else { 100_000 }, target: seen, sees });
    let depth = ENV.with(|e| e.borrow().depth);
    if !cond || depth >= reenter {
        return Ok(());
    }
    struct Depth;
    impl Drop for Depth {
        fn drop(&mut self) {
            ENV.with(|e| e.borrow_mut().depth -= 1);
        }
    }
    ENV.with(|e| e.borrow_mut().depth += 1);
    let _d = Depth;
    for e in &t.effects {
        match e {
            Effect::Tag(x) => {
                if let Some(t) = &target {
                    lib(|| t.with_mut(|n| user(|| n.tags.push(*x))));
                }
            }
            Effect::Rename(id) => {
                if let Some(t) = &target {
                    lib(|| t.with_mut(|n| user(|| n.id = SimId(*id))));
                }
            }
            Effect::Tear(x) => {
                if let Some(t) = &target {
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        lib(|| {
                            t.with_mut(|n| {
                                user(|| {
                                    n.tags.push(*x);
                                    n.torn = true;
                                    panic_any("torn".to_string())
                                })
                            })
                        });
                    }));
                    if let Err(p) = r {
                        if text(&*p) == CB_PANIC {
                            resume_unwind(p);
                        }
                    }
                }
            }
            Effect::Keep => {
                if let Some(t) = &target {
                    let t = lib(|| t.clone());
                    KEPT.with(|k| k.borrow_mut().push(t));
                }
            }
            Effect::Nested { body: steps, end, contained, forward } => {
                let m = Meet { contained: *contained, forward: *forward };
                meet(m, || {
                    lib(|| {
                        let tx = ctx.transaction();
                        if *end == End::Abandon {
                            let c = Context::from(&tx);
                            return user(|| {
                                run_steps(&Frame { ctx: &c, up: None }, steps, ids)?;
                                Err(Error::custom("abandoned"))
                            });
                        }
                        tx.with(|c| user(|| body(c, None, steps, end, 8, ids)))
                    })
                })?;
            }
        }
    }
    match &t.out {
        Out::Ok => Ok(()),
        Out::Err(n) => Err(err(*n)),
        Out::Panic(n) => panic_any(format!("P{n}")),
    }
}

/// Ids there are and how deep triggers act within triggers.
type Limits = (u16, u8);
type P = Resource<Present>;
type A = Resource<Absent>;
type T = Target<SimNode>;
type C<'a> = Ctx<'a, SimNode>;

fn ok(p: &P) -> bool {
    p.with(|p| p.0 == 4242).unwrap_or(false)
}
fn no(a: &A) -> bool {
    !a.exists()
}

fn register<S: 'static>(schema: Schema<SimNode>, s: S, t: Arc<Trig>, ids: Limits) -> Schema<SimNode> {
    match t.sig {
        1 => schema.with_trigger(s, move |c: C<'_>, x: T, p: P| user(|| run_trigger(&t, ids, &c, Some(x), ok(&p)))),
        2 => schema.with_trigger(s, move |c: C<'_>, a: A, x: T, p: P| {
            user(|| run_trigger(&t, ids, &c, Some(x), ok(&p) && no(&a)))
        }),
        3 => schema.with_trigger(s, move |c: C<'_>| user(|| run_trigger(&t, ids, &c, None, true))),
        4 => schema.with_trigger(s, move |c: C<'_>, p1: P, p2: P, a: A, p3: P, x: T, y: T, a2: A, p4: P| {
            user(|| {
                drop(y);
                let r = [&p1, &p2, &p3, &p4].iter().all(|p| ok(p)) && no(&a) && no(&a2);
                run_trigger(&t, ids, &c, Some(x), r)
            })
        }),
        _ => schema.with_trigger(s, move |c: C<'_>, x: T| user(|| run_trigger(&t, ids, &c, Some(x), true))),
    }
}

struct Triggers(Vec<Arc<Trig>>, Limits);

impl Triggers {
    fn add(self, mut schema: Schema<SimNode>) -> Schema<SimNode> {
        for t in self.0 {
            schema = match t.event {
                Event::BeforeSave => register(schema, BeforeSave, t, self.1),
                Event::AfterSave => register(schema, AfterSave, t, self.1),
                Event::BeforeDelete => register(schema, BeforeDelete, t, self.1),
                Event::AfterDelete => register(schema, AfterDelete, t, self.1),
                Event::Custom0 => register(schema, Custom0, t, self.1),
                Event::Custom1 => register(schema, Custom1, t, self.1),
            };
        }
        schema
    }
}

impl Plugin<SimNode> for Triggers {
    fn install(self, schema: Schema<SimNode>) -> Schema<SimNode> {
        self.add(schema)
    }
}

pub fn build(p: &Program) -> Arc<Shared> {
    let graph = || {
        if p.collect {
            Graph::from_iter(p.init.iter().map(SimNode::new))
        } else {
            p.init.iter().fold(Graph::default(), |g, n| g.with_node(SimNode::new(n)))
        }
    };
    let t = Triggers(p.triggers.iter().cloned().map(Arc::new).collect(), (p.ids, p.reenter));
    let mut s = Schema::from(graph()).with_resource(Present(4242));
    s = if p.plugin { s.install(t) } else { t.add(s) };
    Arc::new(Shared(s, Schema::from(graph())))
}

// ---------------------------------------------------------------- actions

fn snapshot(schema: &Schema<SimNode>, ids: u16, stall: bool, panic: Option<u32>) {
    let g = lib(|| schema.read());
    let mut all: Vec<V> = lib(|| (&*g).into_iter().map(|n| n.v()).collect());
    log(Ev::Snapshot(all.clone()));
    if stall {
        log(Ev::Waiting(simrt::stall()));
    }
    ARMED.set(true);
    let scan = (0..ids)
        .map(|i| {
            let v = lib(|| g.get(&SimId(i)));
            (i, v.map(|n| n.v()), lib(|| g.contains(&SimId(i))))
        })
        .collect();
    log(Ev::Scan(scan));
    ARMED.set(false);
    if let Some(n) = panic {
        panic_any(format!("P{n}"));
    }
    lib(|| drop(g));
    all.clear();
}

fn early(on: bool) {
    if on {
        log(Ev::Waiting(simrt::stall()));
    }
}

fn act(schema: &Schema<SimNode>, a: &Action, ids: u16) -> Result<u32> {
    match a {
        Action::Tx { body: steps, end, early: e, pre } => {
            let tx = lib(|| schema.transaction());
            early(*e);
            if let Some(pre) = pre {
                lib(|| {
                    let ctx = Context::from(&tx);
                    user(|| {
                        log(Ev::Begin);
                        ARMED.set(true);
                        let r = run_steps(&Frame { ctx: &ctx, up: None }, pre, ids);
                        ARMED.set(false);
                        r
                    })
                })?;
            }
            if *end == End::Abandon {
                return lib(|| {
                    let ctx = Context::from(&tx);
                    user(|| {
                        log(Ev::Begin);
                        ARMED.set(true);
                        let r = run_steps(&Frame { ctx: &ctx, up: None }, steps, ids);
                        ARMED.set(false);
                        r?;
                        Err(Error::custom("abandoned"))
                    })
                });
            }
            lib(|| {
                tx.with(|ctx| {
                    user(|| {
                        log(Ev::Begin);
                        ARMED.set(true);
                        let r = body(ctx, None, steps, end, 5, ids);
                        ARMED.set(false);
                        r
                    })
                })
            })
        }
        Action::Save { node, early: e } => {
            let tx = lib(|| schema.transaction());
            early(*e);
            lib(|| Save::new(SimNode::new(node)).execute(tx)).map(|_| 0)
        }
        Action::Delete { id, early: e } => {
            let tx = lib(|| schema.transaction());
            early(*e);
            lib(|| Delete::new(SimId(*id)).execute(tx)).map(|_| 0)
        }
        Action::Read { stall, panic } => {
            snapshot(schema, ids, *stall, *panic);
            Ok(0)
        }
        Action::Edit { edits, panic } => {
            let mut g = lib(|| schema.write());
            for (i, e) in edits.iter().enumerate() {
                if let Some((n, p)) = panic {
                    if *n as usize == i {
                        panic_any(format!("P{p}"));
                    }
                }
                ARMED.set(true);
                let ev = match e {
                    Edit::Put(n) => Ev::Old(lib(|| g.insert(SimNode::new(n))).map(|n| n.v())),
                    Edit::Del(id) => Ev::Old(lib(|| g.remove(&SimId(*id))).map(|n| n.v())),
                    Edit::Get(id) => Ev::Old(lib(|| g.get(&SimId(*id))).map(|n| n.v())),
                    Edit::Has(id) => Ev::Has(*id, lib(|| g.contains(&SimId(*id)))),
                    Edit::Handle(id) => lib(|| handle(*id, g.node(SimId(*id)))),
                    Edit::Walk(id) => Ev::Walk(*id, lib(|| walk(g.node(SimId(*id))))),
                    Edit::Iter => Ev::Snapshot(lib(|| (&*g).into_iter().map(|n| n.v()).collect())),
                };
                ARMED.set(false);
                log(ev);
            }
            if let Some((n, p)) = panic {
                if *n as usize >= edits.len() {
                    panic_any(format!("P{p}"));
                }
            }
            lib(|| drop(g));
            Ok(0)
        }
        Action::Idle => {
            log(Ev::Waiting(simrt::stall()));
            Ok(0)
        }
    }
}

/// What one action observed.
pub struct Record {
    pub thread: u8,
    pub action: Action,
    pub start: u64,
    pub end: u64,
    pub evs: Vec<(u64, Ev)>,
    /// State read right after it, where nobody else runs.
    pub post: Option<(Vec<V>, Vec<V>)>,
    pub fired: u64,
    pub callbacks: u64,
}

pub fn run_action(shared: &Shared, thread: u8, a: &Action, fault: Option<&Fault>, ids: u16, post: bool) -> Record {
    let Shared(schema, other) = shared;
    OTHER.set(other);
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        e.log.clear();
        e.depth = 0;
        e.fault = fault.map(|f| (f.kind, f.nth));
        e.fired = 0;
        e.callbacks = 0;
    });
    ARMED.set(false);
    let start = simrt::event();
    let r = catch_unwind(AssertUnwindSafe(|| act(schema, a, ids)));
    ARMED.set(false);
    log(Ev::End(match r {
        Ok(r) => res(&r),
        Err(p) => Res::Panic(text(&*p)),
    }));
    let end = simrt::event();
    OTHER.set(std::ptr::null());
    let kept = KEPT.with(|k| std::mem::take(&mut *k.borrow_mut()));
    lib(|| drop(kept));
    let (evs, fired, callbacks) = ENV.with(|e| {
        let mut e = e.borrow_mut();
        e.depth = 0;
        (std::mem::take(&mut e.log), e.fired, e.callbacks)
    });
    let all = |s: &Schema<SimNode>| {
        let g = lib(|| s.read());
        let all = (&*g).into_iter().map(|n| n.v()).collect();
        lib(|| drop(g));
        all
    };
    let post = post.then(|| (all(schema), all(other)));
    Record { thread, action: a.clone(), start, end, evs, post, fired, callbacks }
}
