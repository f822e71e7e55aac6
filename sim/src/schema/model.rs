//! The reference model: a stack of maps. Predicts everything an action observes.

use super::prog::*;
use std::collections::BTreeMap;

pub type State = BTreeMap<u16, V>;

pub fn value(n: &NodeSpec) -> V {
    V { id: n.id, val: n.val, tags: Vec::new(), edges: n.edges.clone() }
}

pub fn initial(p: &Program) -> State {
    p.init.iter().map(|n| (n.id, value(n))).collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Class {
    Read,
    Trigger,
    Result,
    UnexpectedPanic,
    Snapshot,
    Waiting,
    State,
    Serial,
    Stuck,
}

enum Flow {
    /// None: some error, text not predicted.
    Err(Option<String>),
    Panic(String),
}
type R<T> = Result<T, Flow>;

struct Frame {
    ops: BTreeMap<u16, Option<V>>,
    parent: Option<usize>,
    target: Option<usize>,
    other: bool,
}

struct Cell {
    v: V,
    torn: bool,
}

pub struct Eval {
    /// Events that agreed.
    pub at: usize,
    pub mismatch: Option<(Class, String)>,
    pub state: State,
    pub other: State,
    /// Another state allowed: an edit was cut short by a panicking call-back.
    pub alt: Option<State>,
    /// False if the mismatch leaves the expected state undetermined.
    #[allow(dead_code)]
    pub known: bool,
}

struct M<'a> {
    p: &'a Program,
    base: &'a State,
    other: State,
    kept: Vec<usize>,
    seen: &'a [(u64, Ev)],
    at: usize,
    frames: Vec<Frame>,
    cells: Vec<Cell>,
    depth: u8,
    mismatch: Option<(Class, String)>,
    known: bool,
    fault: bool,
}

fn class(e: &Ev, seen: Option<&Ev>) -> Class {
    if let Some(Ev::Op(Res::Panic(_)) | Ev::End(Res::Panic(_))) = seen {
        if !matches!(e, Ev::Op(Res::Panic(_)) | Ev::End(Res::Panic(_))) {
            return Class::UnexpectedPanic;
        }
    }
    match (e, seen) {
        (Ev::Trig { .. }, _) | (_, Some(Ev::Trig { .. })) => Class::Trigger,
        (Ev::Op(_) | Ev::End(_), _) => Class::Result,
        (_, Some(Ev::Op(_) | Ev::End(_))) => Class::Result,
        (Ev::Snapshot(_), _) => Class::Snapshot,
        (Ev::Waiting(_), _) => Class::Waiting,
        _ => Class::Read,
    }
}

impl M<'_> {
    fn blind(&self) -> bool {
        self.mismatch.is_some() || self.fault
    }

    fn emit(&mut self, e: Ev) {
        if self.blind() {
            return;
        }
        let seen = self.seen.get(self.at).map(|x| &x.1);
        if let Some(Ev::Fault) = seen {
            self.fault = true;
            return;
        }
        let ok = match (&e, seen) {
            (Ev::Op(a), Some(Ev::Op(b))) | (Ev::End(a), Some(Ev::End(b))) => a.agrees(b),
            (Ev::Waiting(_), Some(Ev::Waiting(w))) => w.is_empty(),
            (a, Some(b)) => a == b,
            (_, None) => false,
        };
        if ok {
            self.at += 1;
        } else {
            let c = class(&e, seen);
            self.mismatch = Some((c, format!("event {}: expected {:?}, observed {:?}", self.at, e, seen)));
        }
    }

    fn peek(&self) -> Option<&Ev> {
        if self.blind() {
            None
        } else {
            self.seen.get(self.at).map(|x| &x.1)
        }
    }

    /// All nodes of a state. Iteration order is not promised: compared as a set.
    fn snapshot(&self, s: &State) -> Ev {
        let want = all(s);
        if let Some(Ev::Snapshot(v)) = self.peek() {
            let mut sorted = v.clone();
            sorted.sort();
            if sorted == want {
                return Ev::Snapshot(v.clone());
            }
        }
        Ev::Snapshot(want)
    }

    fn look(&self, f: Option<usize>, id: u16) -> Option<V> {
        let mut f = f;
        while let Some(i) = f {
            if let Some(v) = self.frames[i].ops.get(&id) {
                return v.clone();
            }
            if self.frames[i].other && self.frames[i].parent.is_none() {
                return self.other.get(&id).cloned();
            }
            f = self.frames[i].parent;
        }
        self.base.get(&id).cloned()
    }

    fn open(&mut self, parent: Option<usize>) -> usize {
        let other = parent.is_some_and(|p| self.frames[p].other);
        self.frames.push(Frame { ops: BTreeMap::new(), parent, target: None, other });
        self.frames.len() - 1
    }

    /// Level `lvl` counted from the innermost open level of the given chain.
    fn at(chain: &[usize], lvl: u8) -> (usize, &[usize]) {
        let keep = chain.len().saturating_sub(lvl as usize).max(1);
        (chain[keep - 1], &chain[..keep])
    }

    fn merge(&mut self, f: usize) {
        let ops = std::mem::take(&mut self.frames[f].ops);
        match self.frames[f].parent {
            Some(p) => self.frames[p].ops.extend(ops),
            None => apply(&mut self.other, ops),
        }
    }

    fn meet(&mut self, m: Meet, r: R<u32>) -> R<()> {
        match r {
            Ok(n) => {
                self.emit(Ev::Op(Res::Ok(n)));
                Ok(())
            }
            Err(Flow::Err(e)) => {
                self.emit(Ev::Op(match &e {
                    Some(s) => Res::Err(s.clone()),
                    None => Res::AnyErr,
                }));
                if m.forward {
                    Err(Flow::Err(e))
                } else {
                    Ok(())
                }
            }
            Err(Flow::Panic(s)) => {
                if !m.contained {
                    return Err(Flow::Panic(s));
                }
                self.emit(Ev::Op(Res::Panic(s)));
                if m.forward {
                    Err(Flow::Err(Some("contained".into())))
                } else {
                    Ok(())
                }
            }
        }
    }

    /// Body of a transaction nested in the last of `chain`, with `visible` levels for its steps.
    fn nested(&mut self, parent: Option<usize>, visible: &[usize], steps: &[Step], end: &End, ok: u32) -> R<u32> {
        let f = self.open(parent);
        if parent.is_none() {
            self.frames[f].other = true;
        }
        let mut chain = visible.to_vec();
        chain.push(f);
        self.steps(&chain, steps)?;
        match end {
            End::Ok => {
                self.merge(f);
                Ok(ok)
            }
            End::Err(n) => Err(Flow::Err(Some(format!("E{n}")))),
            End::Panic(n) => Err(Flow::Panic(format!("P{n}"))),
            End::Abandon => Err(Flow::Err(Some("abandoned".into()))),
            End::Leak => match self.peek() {
                // Success must mean that the changes were taken over.
                Some(Ev::Op(Res::Ok(_))) => {
                    self.merge(f);
                    Ok(ok)
                }
                Some(_) => Err(Flow::Err(None)),
                None => {
                    self.known = false;
                    Err(Flow::Err(None))
                }
            },
        }
    }

    fn steps(&mut self, chain: &[usize], steps: &[Step]) -> R<()> {
        for s in steps {
            match s {
                Step::Put { lvl, node } => {
                    let (f, _) = Self::at(chain, *lvl);
                    self.frames[f].ops.insert(node.id, Some(value(node)));
                }
                Step::Del { lvl, id } => {
                    let (f, _) = Self::at(chain, *lvl);
                    self.frames[f].ops.insert(*id, None);
                }
                Step::Many { lvl, n, seed } => {
                    let (f, _) = Self::at(chain, *lvl);
                    for e in many(*n, *seed, self.p.ids) {
                        match e {
                            Edit::Put(n) => self.frames[f].ops.insert(n.id, Some(value(&n))),
                            Edit::Del(id) => self.frames[f].ops.insert(id, None),
                            _ => unreachable!(),
                        };
                    }
                }
                Step::Get { lvl, id } => {
                    let v = self.look(Some(Self::at(chain, *lvl).0), *id);
                    self.emit(Ev::Get(*id, v));
                }
                Step::Has { lvl, id } => {
                    let v = self.look(Some(Self::at(chain, *lvl).0), *id);
                    self.emit(Ev::Has(*id, v.is_some()));
                }
                Step::Handle { lvl, id } => {
                    let v = self.look(Some(Self::at(chain, *lvl).0), *id);
                    let e = v.as_ref().map(|v| v.edges.clone()).unwrap_or_default();
                    let none = v.is_none();
                    self.emit(Ev::Handle(*id, v, none, e));
                }
                Step::Walk { lvl, id } => {
                    let f = Self::at(chain, *lvl).0;
                    let w = walk(*id, &|i| self.look(Some(f), i));
                    self.emit(Ev::Walk(*id, w));
                }
                Step::Scan { lvl } => {
                    let f = Self::at(chain, *lvl).0;
                    let all = (0..self.p.ids)
                        .map(|i| {
                            let v = self.look(Some(f), i);
                            let some = v.is_some();
                            (i, v, some)
                        })
                        .collect();
                    self.emit(Ev::Scan(all));
                }
                Step::Nested { lvl, body, end, meet } => {
                    let (f, visible) = Self::at(chain, *lvl);
                    let r = self.nested(Some(f), visible, body, end, 7);
                    self.meet(*meet, r)?;
                }
                Step::Other { body, end, meet } => {
                    let before = self.other.clone();
                    let r = self.nested(None, &[], body, end, 7);
                    let r = self.meet(*meet, r);
                    if self.fault {
                        // It turns out not to have been reached.
                        self.other = before;
                    }
                    r?;
                }
                Step::Late(x) => {
                    for c in self.kept.clone() {
                        if !self.cells[c].torn {
                            self.cells[c].v.tags.push(*x);
                        }
                    }
                }
                Step::Save { lvl, node, meet } => {
                    let (f, _) = Self::at(chain, *lvl);
                    let r = self.save(Some(f), node).map(|f| {
                        self.merge(f);
                        0
                    });
                    self.meet(*meet, r)?;
                }
                Step::Delete { lvl, id, meet } => {
                    let (f, _) = Self::at(chain, *lvl);
                    let r = self.delete(Some(f), *id).map(|f| {
                        self.merge(f);
                        0
                    });
                    self.meet(*meet, r)?;
                }
                Step::Select { lvl, event, meet } => {
                    let (f, _) = Self::at(chain, *lvl);
                    let r = self.triggers(f, *event).map(|_| 0);
                    self.meet(*meet, r)?;
                }
            }
        }
        Ok(())
    }

    fn save(&mut self, parent: Option<usize>, node: &NodeSpec) -> R<usize> {
        let f = self.open(parent);
        self.cells.push(Cell { v: value(node), torn: false });
        let c = self.cells.len() - 1;
        self.frames[f].target = Some(c);
        self.triggers(f, Event::BeforeSave)?;
        if self.cells[c].torn {
            return Err(Flow::Err(None));
        }
        let v = self.cells[c].v.clone();
        self.frames[f].ops.insert(v.id, Some(v));
        self.triggers(f, Event::AfterSave)?;
        Ok(f)
    }

    fn delete(&mut self, parent: Option<usize>, id: u16) -> R<usize> {
        let f = self.open(parent);
        let Some(v) = self.look(Some(f), id) else {
            return Err(Flow::Err(Some("noop".into())));
        };
        self.cells.push(Cell { v, torn: false });
        self.frames[f].target = Some(self.cells.len() - 1);
        self.triggers(f, Event::BeforeDelete)?;
        self.frames[f].ops.insert(id, None);
        self.triggers(f, Event::AfterDelete)?;
        Ok(f)
    }

    fn triggers(&mut self, f: usize, event: Event) -> R<()> {
        let p = self.p;
        for t in p.triggers.iter().filter(|t| t.event == event) {
            self.trigger(f, t)?;
        }
        Ok(())
    }

    fn trigger(&mut self, f: usize, t: &Trig) -> R<()> {
        let cell = if t.sig == 3 { None } else { self.frames[f].target };
        let target = cell.filter(|c| !self.cells[*c].torn).map(|c| self.cells[c].v.clone());
        let sees = target.as_ref().map(|v| self.look(Some(f), v.id));
        let cond = match t.only {
            None => true,
            Some(id) => target.as_ref().is_some_and(|v| v.id == id),
        };
        self.emit(Ev::Trig { trig: t.id, target, sees });
        if !cond || self.depth >= self.p.reenter {
            return Ok(());
        }
        self.depth += 1;
        let r = self.effects(f, t, cell);
        self.depth -= 1;
        r
    }

    fn effects(&mut self, f: usize, t: &Trig, cell: Option<usize>) -> R<()> {
        for e in &t.effects {
            let c = cell.filter(|c| !self.cells[*c].torn);
            match e {
                Effect::Tag(x) => {
                    if let Some(c) = c {
                        self.cells[c].v.tags.push(*x);
                    }
                }
                Effect::Rename(id) => {
                    if let Some(c) = c {
                        self.cells[c].v.id = *id;
                    }
                }
                Effect::Tear(_) => {
                    if let Some(c) = c {
                        self.cells[c].torn = true;
                    }
                }
                Effect::Keep => self.kept.extend(cell),
                Effect::Nested { body, end, contained, forward } => {
                    let r = self.nested(Some(f), &[], body, end, 8);
                    self.meet(Meet { contained: *contained, forward: *forward }, r)?;
                }
            }
        }
        match &t.out {
            Out::Ok => Ok(()),
            Out::Err(n) => Err(Flow::Err(Some(format!("E{n}")))),
            Out::Panic(n) => Err(Flow::Panic(format!("P{n}"))),
        }
    }
}

fn apply(s: &mut State, ops: BTreeMap<u16, Option<V>>) {
    for (id, v) in ops {
        match v {
            Some(v) => s.insert(id, v),
            None => s.remove(&id),
        };
    }
}

/// The successors of a node and theirs: identity, value, existence.
fn walk(id: u16, look: &dyn Fn(u16) -> Option<V>) -> Vec<(u16, Option<V>, bool)> {
    let edges = |id: u16| look(id).map(|v| v.edges).unwrap_or_default();
    let mut out = Vec::new();
    for a in edges(id) {
        out.push((a, look(a), look(a).is_none()));
        for b in edges(a) {
            out.push((b, look(b), look(b).is_none()));
        }
    }
    out
}

fn all(s: &State) -> Vec<V> {
    s.values().cloned().collect()
}

/// Evaluates one action on a state against what it observed.
pub fn eval(p: &Program, a: &Action, base: &State, other: &State, seen: &[(u64, Ev)]) -> Eval {
    let mut m = M {
        p,
        base,
        other: other.clone(),
        kept: Vec::new(),
        seen,
        at: 0,
        frames: Vec::new(),
        cells: Vec::new(),
        depth: 0,
        mismatch: None,
        known: true,
        fault: false,
    };
    let mut next = base.clone();
    let mut edited = false;
    let mut alt = None;
    let early = matches!(
        a,
        Action::Tx { early: true, .. } | Action::Save { early: true, .. } | Action::Delete { early: true, .. }
    );
    if early {
        m.emit(Ev::Waiting(vec![]));
    }
    let r: R<(u32, Option<usize>)> = match a {
        Action::Tx { body, end, pre, .. } => {
            let f = m.open(None);
            let first = match pre {
                Some(steps) => {
                    m.emit(Ev::Begin);
                    m.steps(&[f], steps)
                }
                None => Ok(()),
            };
            let second = first.and_then(|_| {
                m.emit(Ev::Begin);
                m.steps(&[f], body)
            });
            second.and_then(|_| match end {
                End::Ok => Ok((5, Some(f))),
                End::Err(n) => Err(Flow::Err(Some(format!("E{n}")))),
                End::Panic(n) => Err(Flow::Panic(format!("P{n}"))),
                End::Abandon => Err(Flow::Err(Some("abandoned".into()))),
                End::Leak => match m.peek() {
                    Some(Ev::End(Res::Ok(_))) => Ok((5, Some(f))),
                    Some(_) => Err(Flow::Err(None)),
                    None => {
                        m.known = false;
                        Err(Flow::Err(None))
                    }
                },
            })
        }
        Action::Save { node, .. } => m.save(None, node).map(|f| (0, Some(f))),
        Action::Delete { id, .. } => m.delete(None, *id).map(|f| (0, Some(f))),
        Action::Read { stall, panic } => {
            let s = m.snapshot(base);
            m.emit(s);
            if *stall {
                m.emit(Ev::Waiting(vec![]));
            }
            let scan = (0..p.ids).map(|i| (i, base.get(&i).cloned(), base.contains_key(&i))).collect();
            m.emit(Ev::Scan(scan));
            match panic {
                Some(n) => Err(Flow::Panic(format!("P{n}"))),
                None => Ok((0, None)),
            }
        }
        Action::Edit { edits, panic } => {
            edited = true;
            let mut out = None;
            for (i, e) in edits.iter().enumerate() {
                if let Some((n, x)) = panic {
                    if *n as usize == i {
                        out = Some(*x);
                        break;
                    }
                }
                let before = next.clone();
                let ev = match e {
                    Edit::Put(n) => Ev::Old(next.insert(n.id, value(n))),
                    Edit::Del(id) => Ev::Old(next.remove(id)),
                    Edit::Get(id) => Ev::Old(next.get(id).cloned()),
                    Edit::Has(id) => Ev::Has(*id, next.contains_key(id)),
                    Edit::Handle(id) => {
                        let v = next.get(id).cloned();
                        let edges = v.as_ref().map(|v| v.edges.clone()).unwrap_or_default();
                        let none = v.is_none();
                        Ev::Handle(*id, v, none, edges)
                    }
                    Edit::Walk(id) => Ev::Walk(*id, walk(*id, &|i| next.get(&i).cloned())),
                    Edit::Iter => m.snapshot(&next),
                };
                m.emit(ev);
                if m.fault && alt.is_none() {
                    alt = Some(std::mem::replace(&mut next, before));
                    break;
                }
            }
            if let Some((n, x)) = panic {
                if *n as usize >= edits.len() {
                    out = Some(*x);
                }
            }
            match out {
                Some(n) => Err(Flow::Panic(format!("P{n}"))),
                None => Ok((0, None)),
            }
        }
        Action::Idle => {
            m.emit(Ev::Waiting(vec![]));
            Ok((0, None))
        }
    };
    let last = seen.last().map(|x| &x.1);
    let predicted_ok = r.is_ok();
    let commit = r.as_ref().ok().and_then(|x| x.1);
    m.emit(Ev::End(match r {
        Ok((n, _)) => Res::Ok(n),
        Err(Flow::Err(Some(s))) => Res::Err(s),
        Err(Flow::Err(None)) => Res::AnyErr,
        Err(Flow::Panic(s)) => Res::Panic(s),
    }));
    if m.fault {
        // An injected panic in a call-back: it must surface, and nothing may have changed.
        if m.mismatch.is_none() && last != Some(&Ev::End(Res::Panic(CB_PANIC.into()))) {
            m.mismatch = Some((Class::Result, format!("injected panic did not surface: {last:?}")));
        }
        let state = if edited { next } else { base.clone() };
        return Eval { at: m.at, mismatch: m.mismatch, state, other: m.other, alt, known: true };
    }
    if m.mismatch.is_none() && m.at != seen.len() {
        m.mismatch = Some((Class::Trigger, format!("unexpected further event {:?}", seen[m.at].1)));
    }
    let observed_ok = matches!(last, Some(Ev::End(Res::Ok(_))));
    if !edited {
        if observed_ok && predicted_ok {
            if let Some(f) = commit {
                apply(&mut next, std::mem::take(&mut m.frames[f].ops));
            }
        } else if observed_ok && !predicted_ok {
            // It was expected to fail: which changes it should have made is not determined.
            m.known = false;
        }
    }
    Eval { at: m.at, mismatch: m.mismatch, state: next, other: m.other, alt: None, known: m.known }
}
