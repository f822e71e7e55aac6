//! Seeded generation of programs: a profile per property, perturbed per case (swarm style).

use super::prog::*;
use crate::case::Info;
use simrt::rng::Rng;

struct Gen<'r> {
    rng: &'r mut Rng,
    ids: u16,
    val: u32,
    /// Weights of the steps: Put Del Get Has Handle Scan Nested Save Delete Select Walk
    steps: [f64; 11],
    /// Ends of nested transactions: Ok Err Panic Abandon Leak
    ends: [f64; 5],
    /// Ends of top-level transactions.
    tops: [f64; 5],
    /// Actions: Tx Save Delete Read Edit
    acts: [f64; 5],
    /// Outcome of triggers: Ok Err Panic
    outs: [f64; 3],
    /// Effects of triggers: Tag Rename Tear Nested Keep
    effects: [f64; 5],
    events: [f64; 6],
    len: u64,
    depth: u8,
    contained: f64,
    forward: f64,
    edit_panic: f64,
    edits: u64,
    /// Edges of a node, less than this many.
    edges: u64,
    read_panic: f64,
    /// Several threads.
    multi: bool,
    /// Inside a transaction on the other schema.
    other: bool,
}

impl Gen<'_> {
    fn id(&mut self) -> u16 {
        self.rng.below(self.ids as u64) as u16
    }
    fn num(&mut self) -> u32 {
        self.val += 1;
        self.val
    }
    fn node(&mut self) -> NodeSpec {
        let edges = (0..self.rng.below(self.edges)).map(|_| self.id()).collect();
        NodeSpec { id: self.id(), val: self.num(), edges }
    }
    fn meet(&mut self) -> Meet {
        Meet { contained: self.rng.chance(self.contained), forward: self.rng.chance(self.forward) }
    }
    fn end(&mut self, top: bool) -> End {
        let w = if top { self.tops } else { self.ends };
        match self.rng.weighted(&w) {
            0 => End::Ok,
            1 => End::Err(self.num()),
            2 => End::Panic(self.num()),
            3 => End::Abandon,
            _ => End::Leak,
        }
    }
    fn body(&mut self, depth: u8, level: u8, max: u64) -> Vec<Step> {
        let n = self.rng.below(max + 1);
        (0..n).map(|_| self.step(depth, level)).collect()
    }
    fn step(&mut self, depth: u8, level: u8) -> Step {
        let lvl = if level > 0 && self.rng.chance(0.3) { self.rng.range(1, level as u64) as u8 } else { 0 };
        let mut w = self.steps;
        if depth == 0 {
            w[6] = 0.0;
        }
        if self.other {
            w[7..10].fill(0.0);
        }
        if w.iter().sum::<f64>() <= 0.0 {
            w[2] = 1.0;
        }
        if !self.other && self.rng.chance(0.03) {
            if self.multi || self.rng.chance(0.3) {
                return Step::Late(self.rng.below(200) as u8);
            }
            self.other = true;
            let body = self.body(1, 0, self.len.min(4));
            self.other = false;
            return Step::Other { body, end: self.end(false), meet: self.meet() };
        }
        match self.rng.weighted(&w) {
            0 => Step::Put { lvl, node: self.node() },
            1 => Step::Del { lvl, id: self.id() },
            2 => Step::Get { lvl, id: self.id() },
            3 => Step::Has { lvl, id: self.id() },
            4 => Step::Handle { lvl, id: self.id() },
            5 => Step::Scan { lvl },
            6 => {
                let body = self.body(depth - 1, level + 1, self.len);
                Step::Nested { lvl, body, end: self.end(false), meet: self.meet() }
            }
            7 => Step::Save { lvl, node: self.node(), meet: self.meet() },
            8 => Step::Delete { lvl, id: self.id(), meet: self.meet() },
            9 => {
                let event = self.event();
                Step::Select { lvl, event, meet: self.meet() }
            }
            _ => Step::Walk { lvl, id: self.id() },
        }
    }
    /// One transaction inside the other, `left` more levels down.
    fn tall(&mut self, level: u8, left: u8) -> Vec<Step> {
        let mut out = Vec::new();
        for half in 0..2 {
            for _ in 0..self.rng.below(3) {
                out.push(self.step(0, level));
            }
            if half == 0 && left > 0 {
                let body = self.tall(level + 1, left - 1);
                let end = if self.rng.chance(0.1) { self.end(false) } else { End::Ok };
                let lvl = if level > 0 && self.rng.chance(0.1) { 1 } else { 0 };
                out.push(Step::Nested { lvl, body, end, meet: self.meet() });
            }
        }
        out
    }
    fn many(&mut self) -> Step {
        let n = *self.rng.pick(&[8, 16, 32, 64, 100, 128, 256, 512, 1024]) as u64;
        Step::Many { lvl: self.rng.below(2) as u8, n: (n + self.rng.below(n)) as u16, seed: self.rng.below(1 << 30) as u32 }
    }
    fn event(&mut self) -> Event {
        let w = self.events;
        [Event::BeforeSave, Event::AfterSave, Event::BeforeDelete, Event::AfterDelete, Event::Custom0, Event::Custom1]
            [self.rng.weighted(&w)]
    }
    fn trigger(&mut self, id: u32) -> Trig {
        let n = self.rng.below(3);
        let effects = (0..n)
            .map(|_| {
                let w = self.effects;
                match self.rng.weighted(&w) {
                    0 => Effect::Tag(self.rng.below(200) as u8),
                    1 => Effect::Rename(self.id()),
                    2 => Effect::Tear(self.rng.below(200) as u8),
                    4 => Effect::Keep,
                    _ => {
                        let max = self.len.min(3);
                        Effect::Nested {
                            body: self.body(1, 0, max),
                            end: self.end(false),
                            contained: self.rng.chance(self.contained),
                            forward: self.rng.chance(self.forward),
                        }
                    }
                }
            })
            .collect();
        let w = self.outs;
        let out = match self.rng.weighted(&w) {
            0 => Out::Ok,
            1 => Out::Err(self.num()),
            _ => Out::Panic(self.num()),
        };
        let only = if self.rng.chance(0.45) { Some(self.id()) } else { None };
        Trig { id, event: self.event(), sig: *self.rng.pick(&[0, 0, 0, 1, 2, 3, 4]), only, effects, out }
    }
    fn edits(&mut self) -> Action {
        let n = self.rng.range(1, self.edits);
        let edits: Vec<Edit> = (0..n)
            .map(|_| match self.rng.below(11) {
                0..=3 => Edit::Put(self.node()),
                4 | 5 => Edit::Del(self.id()),
                6 | 7 => Edit::Get(self.id()),
                8 => Edit::Has(self.id()),
                9 if self.rng.chance(0.5) => Edit::Handle(self.id()),
                9 => Edit::Walk(self.id()),
                _ => Edit::Iter,
            })
            .collect();
        let panic = if self.rng.chance(self.edit_panic) {
            Some((self.rng.below(n + 1) as u8, self.num()))
        } else {
            None
        };
        Action::Edit { edits, panic }
    }
    fn action(&mut self) -> Action {
        let w = self.acts;
        match self.rng.weighted(&w) {
            0 => {
                let mut body = self.body(self.depth, 0, self.len);
                if body.is_empty() && self.rng.chance(0.8) {
                    body.push(self.step(self.depth, 0));
                }
                let pre = if self.rng.chance(0.05) { Some(self.body(1, 0, 3)) } else { None };
                Action::Tx { body, end: self.end(true), early: false, pre }
            }
            1 => Action::Save { node: self.node(), early: false },
            2 => Action::Delete { id: self.id(), early: false },
            3 => {
                let panic = if self.rng.chance(self.read_panic) { Some(self.num()) } else { None };
                Action::Read { stall: false, panic }
            }
            _ => self.edits(),
        }
    }
}

fn swarm(rng: &mut Rng, w: &mut [f64], keep: usize) {
    for (i, x) in w.iter_mut().enumerate() {
        if i == keep {
            continue;
        }
        *x *= match rng.below(4) {
            0 => 0.0,
            1 => 0.4,
            2 => 1.0,
            _ => 2.5,
        };
    }
}

pub fn program(prop: &str, rng: &mut Rng) -> Program {
    let ids = rng.range(2, 6) as u16;
    // How often the case has several threads.
    let multi = match prop {
        "C01" => 0.45,
        "C02" => 1.0,
        "C03" => 0.35,
        "C05" => 0.6,
        "C04" | "C07" => 0.15,
        _ => 0.1,
    };
    let multi = rng.chance(multi);
    let mut g = Gen {
        rng,
        ids,
        val: 0,
        //       Put  Del  Get  Has  Hdl  Scan Nest Save Del  Sel  Walk
        steps: [3.0, 1.5, 1.5, 0.7, 0.7, 0.5, 1.5, 1.0, 0.7, 0.2, 0.3],
        ends: [6.0, 2.0, 1.0, 1.0, 0.2],
        tops: [6.0, 1.5, 1.0, 0.7, 0.3],
        acts: [5.0, 1.0, 1.0, 1.0, 1.0],
        outs: [8.0, 1.0, 0.6],
        effects: [2.0, 0.5, 0.2, 2.0, 0.3],
        events: [1.0, 1.0, 1.0, 1.0, 0.3, 0.3],
        len: 6,
        depth: 2,
        contained: 0.7,
        forward: 0.3,
        edit_panic: 0.1,
        edits: 4,
        edges: 3,
        read_panic: 0.1,
        multi,
        other: false,
    };
    let mut reenter = 2;
    let mut triggers = g.rng.below(4);
    let mut actions = (1, 6);
    let mut threads = (2, 4);
    let mut faults = 0.1;
    let mut early = 0.05;
    match prop {
        "C01" => {
            g.tops = [6.0, 2.0, 2.0, 1.0, 0.6];
            g.steps[0] = 5.0;
            g.steps[1] = 3.0;
            faults = 0.25;
        }
        "C02" => {
            g.acts = [4.0, 1.0, 1.0, 2.0, 2.0];
            g.steps = [3.0, 1.5, 2.0, 0.7, 0.5, 1.0, 0.7, 0.7, 0.5, 0.05, 0.3];
            g.len = 4;
            g.depth = 1;
            actions = (1, 4);
            triggers = if g.rng.chance(0.7) { 0 } else { triggers };
        }
        "C03" => {
            g.steps = [3.0, 2.0, 3.0, 1.5, 2.0, 2.0, 2.5, 1.0, 1.0, 0.1, 0.3];
            g.depth = 3;
            g.len = 7;
            actions = (1, 3);
            faults = 0.15;
            triggers = if g.rng.chance(0.5) { 0 } else { triggers };
            if multi {
                g.acts = [5.0, 1.0, 1.0, 0.3, 2.0];
            }
        }
        "C04" => {
            g.steps = [3.0, 1.5, 0.7, 0.4, 0.4, 1.0, 4.0, 1.0, 0.7, 0.1, 0.3];
            g.ends = [5.0, 2.0, 2.0, 1.5, 0.5];
            g.acts = [8.0, 0.5, 0.5, 0.7, 0.3];
            g.depth = 4;
            g.len = 5;
            actions = (1, 3);
            triggers = if g.rng.chance(0.6) { 0 } else { triggers };
        }
        "C05" => {
            g.tops = [4.0, 2.0, 3.0, 2.0, 1.0];
            g.edit_panic = 0.4;
            g.read_panic = 0.3;
            g.acts = [4.0, 1.0, 1.0, 2.0, 1.5];
            g.outs = [4.0, 1.5, 1.5];
            g.len = 4;
            early = 0.4;
            faults = 0.3;
        }
        "C06" => {
            triggers = g.rng.range(2, 8);
            g.acts = [2.0, 4.0, 3.0, 0.5, 0.3];
            g.steps = [1.0, 1.0, 0.4, 0.2, 0.2, 0.2, 1.0, 4.0, 3.0, 1.0, 0.3];
            g.effects = [2.0, 0.5, 0.2, 1.5, 0.3];
            g.len = 4;
        }
        "C07" => {
            triggers = g.rng.range(1, 6);
            g.acts = [3.0, 4.0, 3.0, 0.5, 0.3];
            g.steps = [2.0, 1.0, 0.5, 0.3, 0.3, 0.7, 1.0, 4.0, 3.0, 0.5, 0.3];
            g.outs = [3.0, 2.0, 1.5];
            g.effects = [1.0, 0.3, 0.1, 4.0, 0.3];
            g.len = 4;
        }
        "C08" => {
            triggers = g.rng.range(1, 5);
            g.acts = [2.5, 6.0, 0.7, 0.5, 0.5];
            g.steps = [1.5, 0.7, 1.0, 0.3, 0.3, 0.5, 0.7, 5.0, 0.5, 0.2, 0.3];
            g.effects = [4.0, 1.5, 1.0, 1.0, 1.5];
            g.events = [5.0, 3.0, 0.5, 0.5, 0.2, 0.2];
            g.outs = [12.0, 1.0, 0.6];
            g.len = 4;
        }
        "C17" => {
            triggers = 0;
            g.acts = [1.5, 0.3, 0.3, 1.5, 8.0];
            g.steps = [3.0, 1.5, 1.0, 1.0, 2.0, 1.0, 0.7, 0.3, 0.3, 0.0, 3.0];
            g.edits = 12;
            g.edges = *g.rng.pick(&[3, 3, 6]);
            g.len = 5;
            faults = 0.2;
        }
        _ => {
            triggers = g.rng.range(0, 4);
            g.acts = [4.0, 1.0, 6.0, 0.7, 1.0];
            g.steps = [2.0, 2.0, 0.7, 0.5, 0.3, 0.7, 1.0, 1.5, 5.0, 0.2, 0.3];
            g.effects = [2.0, 1.0, 0.5, 2.0, 0.3];
            g.events = [0.5, 0.5, 4.0, 4.0, 0.2, 0.2];
            g.outs = [12.0, 1.0, 0.6];
        }
    }
    // Perturb.
    let (keep_step, keep_act) = match prop {
        "C04" => (6, 0),
        "C06" | "C07" | "C08" => (7, 1),
        "C09" => (8, 2),
        "C17" => (10, 4),
        _ => (0, 0),
    };
    swarm(g.rng, &mut g.steps, keep_step);
    swarm(g.rng, &mut g.ends, 0);
    swarm(g.rng, &mut g.tops, 0);
    swarm(g.rng, &mut g.acts, keep_act);
    swarm(g.rng, &mut g.outs, 0);
    swarm(g.rng, &mut g.effects, 0);
    if g.rng.chance(0.3) {
        g.contained = 0.0;
    }
    if g.rng.chance(0.05) {
        // Now and then much longer programs.
        g.len *= 3;
        actions.1 *= 3;
        g.ids = 12;
    }
    // Now and then something out of proportion.
    let shape = if g.rng.chance(0.06) { 1 + g.rng.weighted(&[2.0, 2.0, 2.0, 1.0, 1.5, 0.3]) } else { 0 };
    match shape {
        1 => {
            g.ids = *g.rng.pick(&[20, 60, 140, 250, 300, 700, 1200]);
            actions = (1, 4);
            g.steps[5] = 0.2;
        }
        2 => g.tops[1..].iter_mut().for_each(|w| *w *= 0.3),
        3 => {
            triggers = g.rng.range(8, 50);
            g.effects[3] = 0.1;
            g.outs[0] = 200.0;
            actions = (1, 4);
            g.len = 3;
        }
        4 => {
            g.ids = 3;
            g.len = 2;
            g.depth = 1;
            triggers = triggers.min(2);
            actions = (30, 120);
        }
        5 => {
            triggers = g.rng.range(1, 3);
            reenter = *g.rng.pick(&[3, 4, 6, 9, 17, 30]);
            g.len = 2;
            g.steps[7] = 8.0;
            g.effects = [1.0, 0.1, 0.1, 4.0, 0.1];
            g.outs[0] = 50.0;
            actions = (1, 3);
        }
        6 => {
            triggers = *g.rng.pick(&[70, 130, 260, 300]);
            g.effects[3] = 0.0;
            g.outs[0] = 2000.0;
            actions = (1, 3);
            g.len = 2;
            g.depth = 1;
        }
        _ => {}
    }
    if multi {
        g.tops[4] = 0.0;
        if shape == 4 {
            actions = (10, 30);
            threads = (2, 3);
        } else {
            actions.1 = actions.1.min(4);
            if g.rng.chance(0.5) {
                threads = (2, 2);
                actions.1 = 3;
            }
        }
    }
    let ids = g.ids;
    let init = (0..ids).filter(|_| g.rng.chance(0.5)).collect::<Vec<_>>();
    let init = init
        .into_iter()
        .map(|id| NodeSpec { id, ..g.node() })
        .collect::<Vec<_>>();
    let mut init = init;
    if !init.is_empty() && g.rng.chance(if prop == "C17" { 0.4 } else { 0.05 }) {
        // Some of them again, with other values.
        for _ in 0..g.rng.range(1, 5) {
            let node = NodeSpec { id: g.rng.pick(&init).id, ..g.node() };
            let at = g.rng.below(init.len() as u64 + 1) as usize;
            init.insert(at, node);
        }
    }
    let mut triggers: Vec<Trig> = (0..triggers).map(|i| g.trigger(i as u32 + 1)).collect();
    if shape == 6 {
        // Most of them of one moment.
        let event = triggers[0].event.clone();
        for t in &mut triggers {
            t.effects.truncate(g.rng.below(2) as usize * g.rng.below(2) as usize);
            if g.rng.chance(0.95) {
                t.only = None;
                t.event = event.clone();
            }
        }
    }
    let nt = if multi { g.rng.range(threads.0, threads.1) } else { 1 };
    let mut prog: Vec<Vec<Action>> = (0..nt)
        .map(|_| (0..g.rng.range(actions.0, actions.1)).map(|_| g.action()).collect())
        .collect();
    for a in prog.iter_mut().flatten() {
        let Action::Tx { body, .. } = a else { continue };
        if shape == 1 && g.rng.chance(0.7) {
            let at = g.rng.below(body.len() as u64 + 1) as usize;
            body.insert(at, g.many());
        }
        if shape == 2 && g.rng.chance(0.7) {
            let left = match g.rng.below(20) {
                0..=12 => g.rng.range(4, 8),
                13..=18 => g.rng.range(9, 18),
                _ => g.rng.range(19, 30),
            };
            *body = g.tall(0, left as u8);
        }
    }
    if shape == 0 && g.rng.chance(if prop == "C17" { 0.04 } else { 0.01 }) {
        let edges: Vec<u16> = (0..if g.rng.chance(0.3) { g.rng.range(60, 300) } else { g.rng.range(10, 60) }).map(|i| if i < 12 { i % ids as u64 } else { ids as u64 + i } as u16).collect();
        if let Some(Action::Save { node, .. }) = prog.iter_mut().flatten().find(|a| matches!(a, Action::Save { .. })) {
            node.edges = edges.clone();
        }
        if let Some(node) = init.first_mut() {
            node.edges = edges;
            let id = node.id;
            if let Some(Action::Edit { edits, .. }) = prog.iter_mut().flatten().find(|a| matches!(a, Action::Edit { .. })) {
                edits.insert(0, Edit::Walk(id));
            }
        }
    }
    let mut fs = Vec::new();
    if multi && prop == "C05" && g.rng.chance(0.25) {
        // Readers only, one of which takes its time.
        if g.rng.chance(0.3) {
            // Many of them.
            prog.extend((nt..g.rng.range(nt, 12)).map(|_| vec![Action::Idle]));
        }
        let slow = g.rng.below(prog.len() as u64) as usize;
        let writes = prog.len() == nt as usize && g.rng.chance(0.7);
        let all = !writes && g.rng.chance(0.5);
        for (i, t) in prog.iter_mut().enumerate() {
            for a in t.iter_mut().filter(|_| i != slow || !writes) {
                *a = Action::Read { stall: all, panic: None };
            }
        }
        // It may have written before, and may write once the others are done.
        let at = if writes { g.rng.below(prog[slow].len() as u64 + 1) as usize } else { 0 };
        prog[slow].insert(at, Action::Read { stall: true, panic: None });
    } else if multi && g.rng.chance(early) {
        // One thread creates a transaction and does not start it until nobody else goes on.
        let t = g.rng.below(nt) as usize;
        let i = g.rng.below(prog[t].len() as u64) as usize;
        match &mut prog[t][i] {
            Action::Tx { early, .. } | Action::Save { early, .. } | Action::Delete { early, .. } => *early = true,
            a => *a = Action::Idle,
        }
    }
    if g.rng.chance(faults) {
        let t = g.rng.below(nt) as usize;
        let i = g.rng.below(prog[t].len() as u64);
        let kind = *g.rng.pick(&[Cb::IdClone, Cb::IdCmp, Cb::IdEq, Cb::NodeClone, Cb::NodeId]);
        let nth = g.rng.below(20) as u32;
        if matches!(prog[t][i as usize], Action::Tx { .. } | Action::Read { .. }) || !multi && matches!(prog[t][i as usize], Action::Edit { .. }) {
            fs.push(Fault { thread: t as u8, action: i as u8, kind, nth });
        }
    }
    let mut p = Program {
        init,
        collect: g.rng.chance(0.5),
        plugin: g.rng.chance(0.3),
        triggers,
        threads: prog,
        faults: fs,
        ids,
        reenter,
    };
    while cost(&p) > if shape == 0 { 800 } else { MAX_COST } {
        if p.triggers.len() > 1 {
            p.triggers.pop();
        } else if let Some(t) = p.threads.iter_mut().find(|t| t.len() > 1) {
            t.pop();
        } else if p.triggers.is_empty() && p.threads.len() > 2 {
            p.threads.pop();
        } else {
            p.triggers.clear();
            for a in p.threads.iter_mut().flatten() {
                match a {
                    Action::Tx { body, .. } => body.truncate(body.len() / 2),
                    Action::Edit { edits, panic } => {
                        edits.truncate(edits.len() / 2);
                        *panic = panic.filter(|p| p.0 as usize <= edits.len());
                    }
                    _ => {}
                }
            }
        }
        p.faults.clear();
    }
    p
}

fn depth(s: &[Step]) -> usize {
    s.iter()
        .map(|s| match s {
            Step::Nested { body, .. } | Step::Other { body, .. } => 1 + depth(body),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

fn any(s: &[Step], f: &dyn Fn(&Step) -> bool) -> bool {
    s.iter().any(|s| {
        f(s) || match s {
            Step::Nested { body, .. } | Step::Other { body, .. } => any(body, f),
            _ => false,
        }
    })
}

/// The lookups and changes a program makes at most, counted up to a limit.
struct Cost<'a> {
    p: &'a Program,
    n: u64,
    /// Changes a lookup may have to go through.
    pending: u64,
    /// What following the edges of a node takes.
    walk: u64,
}

impl Cost<'_> {
    fn add(&mut self, n: u64) {
        self.n += n * (1 + self.pending / 30);
    }
    fn event(&mut self, e: Event, d: u8) {
        let p = self.p;
        for t in p.triggers.iter().filter(|t| t.event == e) {
            self.add(2);
            if d >= p.reenter || self.n > MAX_COST {
                continue;
            }
            for e in &t.effects {
                match e {
                    Effect::Nested { body, .. } => self.body(body, d + 1),
                    _ => self.add(1),
                }
            }
        }
    }
    fn save(&mut self, d: u8) {
        self.add(1);
        self.pending += 1;
        self.event(Event::BeforeSave, d);
        self.event(Event::AfterSave, d);
    }
    fn delete(&mut self, d: u8) {
        self.add(2);
        self.pending += 1;
        self.event(Event::BeforeDelete, d);
        self.event(Event::AfterDelete, d);
    }
    fn body(&mut self, b: &[Step], d: u8) {
        for s in b {
            if self.n > MAX_COST {
                return;
            }
            match s {
                Step::Scan { .. } => self.add(2 * self.p.ids as u64),
                Step::Nested { body, .. } | Step::Other { body, .. } => {
                    self.add(1);
                    self.body(body, d);
                }
                Step::Many { n, .. } => {
                    self.n += *n as u64;
                    self.pending += *n as u64;
                }
                Step::Save { .. } => self.save(d),
                Step::Delete { .. } => self.delete(d),
                Step::Select { event, .. } => self.event(*event, d),
                Step::Walk { .. } => self.add(self.walk),
                _ => self.add(1),
            }
        }
    }
}

fn cost(p: &Program) -> u64 {
    let walk = p.init.iter().map(|n| n.edges.len() as u64).max().unwrap_or(0).max(4);
    let mut c = Cost { p, n: 0, pending: 0, walk };
    for a in p.threads.iter().flatten() {
        c.pending = 0;
        match a {
            Action::Tx { body, pre, .. } => {
                c.body(body, 0);
                c.body(pre.as_deref().unwrap_or_default(), 0);
            }
            Action::Save { .. } => c.save(0),
            Action::Delete { .. } => c.delete(0),
            Action::Edit { edits, .. } => edits.iter().for_each(|e| {
                c.add(match e {
                    Edit::Iter => p.ids as u64,
                    Edit::Walk(_) => c.walk,
                    _ => 1,
                })
            }),
            _ => c.add(2 * p.ids as u64),
        }
    }
    c.n
}

const MAX_COST: u64 = 8000;

/// The rules a program keeps, so that what it is expected to do is determined.
pub fn valid(p: &Program) -> Result<(), String> {
    let bad = |s: &str| Err(s.to_string());
    if p.threads.is_empty() || p.threads.len() > 12 || p.ids == 0 || p.ids > 1500 {
        return bad("size");
    }
    let all: Vec<&Action> = p.threads.iter().flatten().collect();
    let mut stalls = 0;
    let mut reading = false;
    let mut bodies: Vec<&Vec<Step>> = Vec::new();
    for t in &p.triggers {
        for e in &t.effects {
            if let Effect::Nested { body, .. } = e {
                bodies.push(body);
            }
        }
    }
    for a in &all {
        match a {
            Action::Tx { body, end, early, pre } => {
                stalls += *early as u32;
                bodies.push(body);
                bodies.extend(pre);
                if depth(body) > 34 || (p.threads.len() > 1 && *end == End::Leak) {
                    return bad("transaction");
                }
            }
            Action::Save { early, .. } | Action::Delete { early, .. } => stalls += *early as u32,
            Action::Read { stall, .. } => {
                stalls += *stall as u32;
                reading |= stall;
            }
            Action::Idle => stalls += 1,
            Action::Edit { .. } => {}
        }
    }
    // Transactions on the other schema: where nobody else runs, and with nothing that might lead back to it.
    let wrong = |s: &Step| match s {
        Step::Other { body, .. } => {
            p.threads.len() > 1
                || any(body, &|s| matches!(s, Step::Other { .. } | Step::Save { .. } | Step::Delete { .. } | Step::Select { .. } | Step::Late(_)))
        }
        _ => false,
    };
    if bodies.iter().any(|b| any(b, &wrong)) {
        return bad("other schema");
    }
    if p.reenter > 40 {
        return bad("depth");
    }
    if cost(p) > MAX_COST {
        return bad("too much work");
    }
    if stalls > 1 && !all.iter().all(|a| matches!(a, Action::Read { .. })) {
        return bad("several stalled threads");
    }
    // While a reader takes its time, nobody else may want to write.
    if reading {
        let reads = |t: &Vec<Action>| t.iter().all(|a| matches!(a, Action::Read { .. }));
        let stalls = |t: &Vec<Action>| t.iter().any(|a| matches!(a, Action::Read { stall: true, .. }));
        if p.threads.iter().any(|t| !reads(t) && !stalls(t)) {
            return bad("stalled reader among writers");
        }
    }
    let mut ids: Vec<u32> = p.triggers.iter().map(|t| t.id).collect();
    ids.sort();
    ids.dedup();
    if ids.len() != p.triggers.len() {
        return bad("trigger ids");
    }
    for f in &p.faults {
        let a = p.threads.get(f.thread as usize).and_then(|t| t.get(f.action as usize));
        if !matches!(a, Some(Action::Tx { .. } | Action::Read { .. })) && (p.threads.len() > 1 || !matches!(a, Some(Action::Edit { .. }))) {
            return bad("fault");
        }
    }
    Ok(())
}

const REAL: &[&str] = &[
    "plotline::schema (transactions, contexts, guards, triggers, save, delete, resources, plugins)",
    "plotline::graph and plotline::deref",
    "std locks, once-cells and reference counts (down to the futex call)",
];
const STUB: &[&str] = &[
    "futex(2): waiting and waking decided by the simulator",
    "node type, edges and triggers: programs of the harness",
];
const ASSUME: &[&str] = &[
    "memory is sequentially consistent (one thread runs at a time)",
    "Schema is not Sync; the harness asserts it for resources and triggers that are",
    "programs sampled, not enumerated",
];

pub fn info(_prop: &str) -> Info {
    Info {
        rule: "A case is a program (initial graph, triggers, 1-12 threads of transactions, saves, deletes, reads and edits with user errors, panics, abandonment, leaked contexts and panicking node call-backs) and a schedule, all drawn from VERIF_SEED; non-trivial if at least one operation failed or was cut short, or threads were preempted or waited inside the code; distinct by the full log of observations and scheduling decisions.",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}
