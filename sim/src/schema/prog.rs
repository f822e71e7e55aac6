//! Programs run against a schema, the events they observe, and the node type.

use plotline::id::Identify;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;

// ---------------------------------------------------------------- programs

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NodeSpec {
    pub id: u16,
    pub val: u32,
    pub edges: Vec<u16>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Event {
    BeforeSave,
    AfterSave,
    BeforeDelete,
    AfterDelete,
    Custom0,
    Custom1,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Out {
    Ok,
    Err(u32),
    Panic(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Effect {
    /// Push a tag to the target.
    Tag(u8),
    /// Give the target another identity.
    Rename(u16),
    /// Panic half-way through a change of the target, and contain the panic.
    Tear(u8),
    /// Keep the target past the trigger's end.
    Keep,
    /// A transaction nested in the trigger's context.
    Nested { body: Vec<Step>, end: End, contained: bool, forward: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Trig {
    pub id: u32,
    pub event: Event,
    /// Which of the trigger signatures to register it with.
    pub sig: u8,
    /// Acts only for targets with this id.
    pub only: Option<u16>,
    pub effects: Vec<Effect>,
    pub out: Out,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Ok,
    Err(u32),
    Panic(u32),
    /// The transaction is dropped without being completed.
    Abandon,
    /// The body leaks its context and reports success.
    Leak,
}

/// How an operation's failure is met by the step that made it.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Meet {
    /// Contain panics.
    pub contained: bool,
    /// Return the error from the enclosing body.
    pub forward: bool,
}

/// `lvl`: which open transaction it acts on, 0 the innermost.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Put { lvl: u8, node: NodeSpec },
    Del { lvl: u8, id: u16 },
    Get { lvl: u8, id: u16 },
    Has { lvl: u8, id: u16 },
    Handle { lvl: u8, id: u16 },
    /// The node's successors and theirs, all resolved.
    Walk { lvl: u8, id: u16 },
    Scan { lvl: u8 },
    Nested { lvl: u8, body: Vec<Step>, end: End, meet: Meet },
    Save { lvl: u8, node: NodeSpec, meet: Meet },
    Delete { lvl: u8, id: u16, meet: Meet },
    Select { lvl: u8, event: Event, meet: Meet },
    /// A long run of changes.
    Many { lvl: u8, n: u16, seed: u32 },
    /// Change every target a trigger of this action has kept.
    Late(u8),
    /// A transaction on another schema, with neither saves, deletes nor events.
    Other { body: Vec<Step>, end: End, meet: Meet },
}

/// The changes `Many` stands for.
pub fn many(n: u16, seed: u32, ids: u16) -> impl Iterator<Item = Edit> {
    let mut rng = simrt::rng::Rng::derive(seed as u64, &[7]);
    (0..n as u32).map(move |i| {
        let id = rng.below(ids as u64) as u16;
        if rng.chance(0.7) {
            Edit::Put(NodeSpec { id, val: 1_000_000 + i, edges: vec![] })
        } else {
            Edit::Del(id)
        }
    })
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Edit {
    Put(NodeSpec),
    Del(u16),
    Get(u16),
    Has(u16),
    Handle(u16),
    Walk(u16),
    Iter,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Action {
    /// `early`: create the transaction, let everybody else run, then start it.
    /// `pre`: steps made in a first context of the transaction, gone before its body begins.
    Tx {
        body: Vec<Step>,
        end: End,
        early: bool,
        #[serde(default)]
        pre: Option<Vec<Step>>,
    },
    Save { node: NodeSpec, early: bool },
    Delete { id: u16, early: bool },
    /// Look at the whole graph through a read guard; `stall`: let everybody else run meanwhile.
    Read { stall: bool, panic: Option<u32> },
    /// Direct edits through a write guard, panicking after the first `n` if asked to.
    Edit { edits: Vec<Edit>, panic: Option<(u8, u32)> },
    /// Let everybody else run, outside any operation.
    Idle,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub thread: u8,
    pub action: u8,
    /// Which call-back of the node type panics.
    pub kind: Cb,
    pub nth: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Program {
    pub init: Vec<NodeSpec>,
    /// Load the initial nodes through an iterator (else one by one).
    pub collect: bool,
    /// Register the triggers through a plugin.
    pub plugin: bool,
    pub triggers: Vec<Trig>,
    pub threads: Vec<Vec<Action>>,
    pub faults: Vec<Fault>,
    pub ids: u16,
    /// How deep triggers act that run within triggers.
    #[serde(default = "two")]
    pub reenter: u8,
}

fn two() -> u8 {
    2
}

// ---------------------------------------------------------------- observations

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct V {
    pub id: u16,
    pub val: u32,
    pub tags: Vec<u8>,
    pub edges: Vec<u16>,
}

#[derive(Clone, Debug, Serialize, PartialEq, Eq)]
pub enum Res {
    Ok(u32),
    Err(String),
    /// Predicted only: some error.
    AnyErr,
    Panic(String),
}

impl Res {
    pub fn agrees(&self, seen: &Res) -> bool {
        self == seen || matches!((self, seen), (Res::AnyErr, Res::Err(_)))
    }
}

#[derive(Clone, Debug, Serialize, PartialEq, Eq)]
pub enum Ev {
    /// The transaction's body began (its base state is fixed from here on).
    Begin,
    Get(u16, Option<V>),
    Has(u16, bool),
    /// id, value, virtual, successors, value again.
    Handle(u16, Option<V>, bool, Vec<u16>),
    Scan(Vec<(u16, Option<V>, bool)>),
    Walk(u16, Vec<(u16, Option<V>, bool)>),
    Trig { trig: u32, target: Option<V>, sees: Option<Option<V>> },
    /// A nested operation ended.
    Op(Res),
    Old(Option<V>),
    Snapshot(Vec<V>),
    Fault,
    End(Res),
    /// Threads found waiting while this one stalled where it must not hold anybody up.
    Waiting(Vec<u8>),
}

// ---------------------------------------------------------------- the node type and its call-backs

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Cb {
    IdClone,
    IdCmp,
    IdEq,
    NodeClone,
    NodeId,
}

/// What the current simulated thread is doing; harness side.
pub struct Env {
    pub log: Vec<(u64, Ev)>,
    pub depth: u8,
    pub fault: Option<(Cb, u32)>,
    pub fired: u64,
    pub callbacks: u64,
}

thread_local! {
    pub static ENV: RefCell<Env> = const { RefCell::new(Env { log: Vec::new(), depth: 0, fault: None, fired: 0, callbacks: 0 }) };
    pub static ARMED: Cell<bool> = const { Cell::new(false) };
}

pub fn log(ev: Ev) {
    let n = simrt::event();
    ENV.with(|e| e.borrow_mut().log.push((n, ev)));
}

pub const CB_PANIC: &str = "callback";

fn cb(kind: Cb) {
    if simrt::tid().is_none() {
        return;
    }
    simrt::user(|| {
        simrt::point();
        if !ARMED.get() {
            return;
        }
        let fire = ENV.with(|e| {
            let mut e = e.borrow_mut();
            e.callbacks += 1;
            match &mut e.fault {
                Some((k, n)) if *k == kind => {
                    if *n > 0 {
                        *n -= 1;
                        return false;
                    }
                    e.fault = None;
                    e.fired += 1;
                    true
                }
                _ => false,
            }
        });
        if fire && !std::thread::panicking() {
            log(Ev::Fault);
            ARMED.set(false);
            std::panic::panic_any(CB_PANIC.to_string());
        }
    })
}

#[derive(Debug)]
pub struct SimId(pub u16);

impl Clone for SimId {
    fn clone(&self) -> Self {
        cb(Cb::IdClone);
        SimId(self.0)
    }
}
impl PartialEq for SimId {
    fn eq(&self, o: &Self) -> bool {
        cb(Cb::IdEq);
        self.0 == o.0
    }
}
impl Eq for SimId {}
impl PartialOrd for SimId {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SimId {
    fn cmp(&self, o: &Self) -> Ordering {
        cb(Cb::IdCmp);
        self.0.cmp(&o.0)
    }
}

#[derive(Debug)]
pub struct SimNode {
    pub id: SimId,
    pub val: u32,
    pub tags: Vec<u8>,
    pub edges: Vec<u16>,
    /// Set while a change is under way.
    pub torn: bool,
}

impl SimNode {
    pub fn new(s: &NodeSpec) -> Self {
        SimNode { id: SimId(s.id), val: s.val, tags: Vec::new(), edges: s.edges.clone(), torn: false }
    }
    pub fn v(&self) -> V {
        V { id: self.id.0, val: if self.torn { u32::MAX } else { self.val }, tags: self.tags.clone(), edges: self.edges.clone() }
    }
}

impl Clone for SimNode {
    fn clone(&self) -> Self {
        cb(Cb::NodeClone);
        SimNode { id: SimId(self.id.0), val: self.val, tags: self.tags.clone(), edges: self.edges.clone(), torn: self.torn }
    }
}

impl Identify for SimNode {
    type Id = SimId;
    fn id(&self) -> &SimId {
        cb(Cb::NodeId);
        &self.id
    }
}

pub struct Edge(SimId);
impl Identify for Edge {
    type Id = SimId;
    fn id(&self) -> &SimId {
        &self.0
    }
}
impl plotline::property::Property<SimNode> for Edge {
    fn all(n: &SimNode) -> Vec<Self> {
        simrt::user(|| n.edges.iter().map(|e| Edge(SimId(*e))).collect())
    }
}
