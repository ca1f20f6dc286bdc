//! Concurrent use
use crate::math::*;
use crate::num::*;
use crate::runner::*;
use crate::sched::{self, Clock};
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Set(u16, ValSel),
    SetChain(u8, Vec<ValSel>),
    Clamp(u16, ValSel),
    Origin(u16, PoseSpec),
    Pos(u16),
    Positions(u8),
    OriginOf(u16),
    End(u8),
    Update(u8),
    World(u16),
    Find(u8, u16),
    Walk(u16),
    Print(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub chains: Vec<ChainSel>,
    pub serial: Vec<ChainSel>,
    pub warm: bool,
    pub native: bool,
    pub threads: Vec<Vec<Op>>,
    pub plan: Vec<(u8, u8)>,
    pub last: ChainSel,
}

pub struct P;

#[derive(Clone, Debug)]
enum What {
    /// joint, value, whether it is certainly stored
    Write(usize, f64, bool),
    Origin(usize, Iso, [u64; 7]),
    Read(usize, f64),
    ReadOrigin(usize, [u64; 7]),
    /// nodes of a path, product of their transforms, whether none of them was cached
    Product(Vec<usize>, Iso, bool),
    Fault(String),
}

#[derive(Clone, Debug)]
struct Ev {
    start: u64,
    end: u64,
    what: What,
}

/// a value stored in a joint
#[derive(Clone, Debug)]
struct W {
    start: u64,
    end: u64,
    value: f64,
    tol: f64,
    sure: bool,
}

/// It was there at some time from `a` to `b`, as far as can be told
fn visible(all: &[W], w: &W, a: u64, b: u64) -> bool {
    w.start <= b && !all.iter().any(|x| x.sure && x.start > w.end && x.end < a)
}

struct World<'a, T: Sc> {
    m: &'a Model,
    b: &'a Built<T>,
    chains: &'a [k::Chain<T>],
    chain_idx: &'a [Vec<usize>],
    serial: &'a [k::SerialChain<T>],
    serial_idx: &'a [Vec<usize>],
    movable: &'a [usize],
    family: &'a [bool],
    clock: &'a Clock,
}

fn thread<T: Sc>(w: &World<T>, ops: &[Op]) -> Vec<Ev> {
    let m = w.m;
    let mut log = vec![];
    let node = |n: &u16| pick(*n, m.n);
    let movable = |n: &u16| w.movable[pick(*n, w.movable.len())];
    let free_limits = |i: usize| m.lim[i].is_none() && m.closure(i).iter().all(|f| m.lim[*f].is_none());
    for op in ops {
        let start = w.clock.now();
        let mut out: Vec<What> = vec![];
        match op {
            Op::Set(n, v) => {
                let i = movable(n);
                let v: T = v.finite(m.lim[i]);
                let r = w.b.nodes[i].set_joint_position(v);
                if m.leader[i].is_some() {
                    if let Err(e) = r {
                        out.push(What::Fault(format!("setting follower {i} fails: {e}")));
                    }
                } else {
                    if r.is_ok() && !m.in_limits(i, v.d()) {
                        out.push(What::Fault(format!("joint {i} accepts {:?}", v.d())));
                    }
                    if let (Err(e), true) = (&r, free_limits(i)) {
                        out.push(What::Fault(format!("joint {i} rejects {:?}: {e}", v.d())));
                    }
                    if m.in_limits(i, v.d()) {
                        out.push(What::Write(i, v.d(), r.is_ok()));
                    }
                }
            }
            Op::SetChain(c, vals) => {
                let c = *c as usize % w.chains.len();
                let idx: Vec<usize> = w.chain_idx[c].iter().copied().filter(|i| m.movable(*i)).collect();
                let q: Vec<T> = idx.iter().enumerate().map(|(j, i)| vals[j % vals.len()].finite::<T>(m.lim[*i])).collect();
                let r = w.chains[c].set_joint_positions(&q);
                let real: Vec<(usize, f64)> =
                    idx.iter().zip(&q).filter(|(i, _)| m.leader[**i].is_none()).map(|(i, v)| (*i, v.d())).collect();
                let inside = real.iter().all(|(i, v)| m.in_limits(*i, *v));
                if r.is_ok() && !inside {
                    out.push(What::Fault(format!("chain {c} accepts {real:?}")));
                }
                if let (Err(e), true) = (&r, inside && real.iter().all(|(i, _)| free_limits(*i))) {
                    out.push(What::Fault(format!("chain {c} rejects {real:?}: {e}")));
                }
                for (i, v) in real {
                    if m.in_limits(i, v) {
                        out.push(What::Write(i, v, r.is_ok()));
                    }
                }
            }
            Op::Clamp(n, v) => {
                let i = movable(n);
                if !w.family[i] {
                    let v: T = v.finite(m.lim[i]);
                    w.b.nodes[i].set_joint_position_clamped(v);
                    let v = match m.lim[i] {
                        Some((lo, hi)) => v.d().max(lo).min(hi),
                        None => v.d(),
                    };
                    out.push(What::Write(i, v, true));
                }
            }
            Op::Origin(n, p) => {
                let i = node(n);
                let o = pose_na::<T>(p);
                w.b.nodes[i].set_origin(o);
                out.push(What::Origin(i, pose_iso::<T>(p), iso_bits(&o)));
            }
            Op::Pos(n) => {
                let i = node(n);
                match (w.b.nodes[i].joint_position(), m.movable(i)) {
                    (Some(p), true) => out.push(What::Read(i, p.d())),
                    (None, false) => {}
                    (p, _) => out.push(What::Fault(format!("joint {i} has position {p:?}"))),
                }
            }
            Op::Positions(c) => {
                let c = *c as usize % w.chains.len();
                let q = w.chains[c].joint_positions();
                let idx: Vec<usize> = w.chain_idx[c].iter().copied().filter(|i| m.movable(*i)).collect();
                if q.len() != idx.len() {
                    out.push(What::Fault(format!("chain {c} has {} positions", q.len())));
                } else {
                    for (i, p) in idx.iter().zip(&q) {
                        out.push(What::Read(*i, p.d()));
                    }
                }
            }
            Op::OriginOf(n) => {
                let i = node(n);
                out.push(What::ReadOrigin(i, iso_bits(&w.b.nodes[i].origin())));
            }
            Op::End(c) => {
                let c = *c as usize % w.serial.len();
                let t = w.serial[c].end_transform();
                out.push(What::Product(w.serial_idx[c].clone(), iso(&t), true));
            }
            Op::Update(c) => {
                let c = *c as usize % w.chains.len();
                let t = w.chains[c].update_transforms();
                if t.len() != w.chain_idx[c].len() {
                    out.push(What::Fault(format!("update of chain {c} returns {} transforms", t.len())));
                } else {
                    for (i, t) in w.chain_idx[c].iter().zip(&t) {
                        out.push(What::Product(m.path(*i), iso(t), false));
                    }
                }
            }
            Op::World(n) => {
                let i = node(n);
                if let Some(t) = w.b.nodes[i].world_transform() {
                    out.push(What::Product(m.path(i), iso(&t), false));
                }
            }
            Op::Find(c, n) => {
                let c = *c as usize % w.chains.len();
                let i = node(n);
                let found = w.chains[c].find(&m.name[i]).map(|x| w.b.index(x));
                let want = w.chain_idx[c].contains(&i).then_some(Some(i));
                if found != want {
                    out.push(What::Fault(format!("finding node {i} in chain {c} gives {found:?}")));
                }
            }
            Op::Walk(n) => {
                let i = node(n);
                let up: Vec<Option<usize>> = w.b.nodes[i].iter_ancestors().map(|x| w.b.index(&x)).collect();
                let want: Vec<Option<usize>> = m.path(i).into_iter().rev().map(Some).collect();
                let mut down: Vec<Option<usize>> = w.b.nodes[i].iter_descendants().map(|x| w.b.index(&x)).collect();
                let mut want_down: Vec<Option<usize>> = m.subtree(i).into_iter().map(Some).collect();
                down.sort();
                want_down.sort();
                if up != want || down != want_down {
                    out.push(What::Fault(format!("relatives of node {i}: up {up:?} down {down:?}")));
                }
            }
            Op::Print(c) => {
                let c = *c as usize % w.chains.len();
                let s = format!("{}", w.chains[c]);
                if s.lines().count() != w.chain_idx[c].len() {
                    out.push(What::Fault(format!("chain {c} prints {s:?}")));
                }
            }
        }
        let end = w.clock.now();
        for what in out {
            log.push(Ev { start, end, what });
        }
    }
    log
}

/// Every value which the joint may have held, with the time
fn stored<T: Sc>(m: &Model, log: &[Ev], i: usize) -> Vec<W> {
    let mut out = vec![W {
        start: 0,
        end: 0,
        value: m.pos[i],
        tol: 0.0,
        sure: true,
    }];
    match m.leader[i] {
        None => {
            for e in log {
                if let What::Write(j, v, sure) = e.what {
                    if i == j {
                        out.push(W {
                            start: e.start,
                            end: e.end,
                            value: v,
                            tol: 0.0,
                            sure,
                        });
                    }
                }
            }
        }
        Some((l, a, o)) => {
            // the first value of the leader has not been propagated
            for x in stored::<T>(m, log, l).into_iter().skip(1) {
                let v = x.value * a + o;
                let tol = 4.0 * T::EPS * ((x.value * a).abs() + o.abs()) + 1e-40 + x.tol * a.abs();
                out.push(W { value: v, tol, ..x });
            }
        }
    }
    out
}

/// Is the transform a product of local transforms, each one of the given ones?
fn product_of(options: &[Vec<(Iso, f64)>], got: &Iso, tol: (f64, f64), len: f64) -> bool {
    fn go(options: &[Vec<(Iso, f64)>], at: usize, acc: Iso, slack: f64, got: &Iso, tol: (f64, f64), len: f64) -> bool {
        if at == options.len() {
            return mdiff(&acc.r, &got.r) <= 4.0 * tol.0 + 2.0 * slack && vdiff(acc.t, got.t) <= tol.1 + slack * (2.0 + len);
        }
        options[at].iter().any(|(x, s)| go(options, at + 1, acc.mul(x), slack + s, got, tol, len))
    }
    go(options, 0, Iso::ID, 0.0, got, tol, len)
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let m = Model::new::<T>(&case.tree);
    let b = Built::<T>::new(&case.tree, &m);
    let movable: Vec<usize> = (0..m.n).filter(|i| m.movable(*i)).collect();
    if movable.is_empty() || case.threads.is_empty() || case.chains.is_empty() || case.serial.is_empty() {
        return Ok(());
    }
    let family: Vec<bool> = (0..m.n).map(|i| m.leader[i].is_some() || !m.closure(i).is_empty()).collect();
    let chains: Vec<k::Chain<T>> = case.chains.iter().map(|c| c.chain(&m, &b)).collect();
    let mut chain_idx = vec![];
    for c in &chains {
        chain_idx.push(b.indices(c)?);
    }
    let serial: Vec<k::SerialChain<T>> = case.serial.iter().map(|c| c.serial(&m, &b)).collect();
    let mut serial_idx = vec![];
    for c in &serial {
        serial_idx.push(b.indices(c)?);
    }
    if case.warm {
        k::Chain::from_root(b.nodes[0].clone()).update_transforms();
    }
    let clock = Clock::default();
    clock.now();
    let w = World {
        m: &m,
        b: &b,
        chains: &chains,
        chain_idx: &chain_idx,
        serial: &serial,
        serial_idx: &serial_idx,
        movable: &movable,
        family: &family,
        clock: &clock,
    };
    let bodies: Vec<Box<dyn FnOnce() -> Vec<Ev> + Send + '_>> = case
        .threads
        .iter()
        .map(|ops| {
            let w = &w;
            Box::new(move || thread::<T>(w, ops)) as Box<dyn FnOnce() -> Vec<Ev> + Send + '_>
        })
        .collect();
    let out = sched::run(bodies, if case.native { None } else { Some(&case.plan) });
    if out.deadlock {
        return Err(format!("deadlock: all threads wait for each other; {:?}", out.results.iter().map(|r| r.is_ok()).collect::<Vec<_>>()));
    }
    let mut logs = vec![];
    for (t, r) in out.results.into_iter().enumerate() {
        match r {
            Ok(l) => logs.push(l),
            Err(p) => return Err(format!("thread {t} panicked: {p}")),
        }
    }
    // ---- what the threads saw
    let end = clock.now();
    let log: Vec<Ev> = logs.iter().flatten().cloned().collect();
    let store: Vec<Vec<W>> = (0..m.n).map(|i| stored::<T>(&m, &log, i)).collect();
    let mut origins: Vec<Vec<(u64, u64, Iso, [u64; 7])>> =
        (0..m.n).map(|i| vec![(0, 0, m.origin[i], iso_bits(&pose_na::<T>(&case.tree.nodes[i].origin)))]).collect();
    for e in &log {
        if let What::Origin(i, o, bits) = &e.what {
            origins[*i].push((e.start, e.end, *o, *bits));
        }
    }
    let origin_visible = |i: usize, a: u64, z: u64| -> Vec<Iso> {
        origins[i]
            .iter()
            .filter(|w| w.0 <= z && !origins[i].iter().any(|x| x.0 > w.1 && x.1 < a))
            .map(|w| w.2)
            .collect()
    };
    let (mut reads, mut products) = (0, 0);
    for (t, l) in logs.iter().enumerate() {
        for e in l {
            let err = |s: String| format!("thread {t}: {s} from time {} to {}; everything that happened: {logs:?}", e.start, e.end);
            match &e.what {
                What::Fault(s) => return Err(err(s.clone())),
                What::Write(..) | What::Origin(..) => {}
                What::Read(i, v) => {
                    reads += 1;
                    ensure!(m.in_limits(*i, *v), "{}", err(format!("position {v} of joint {i} is out of the limits {:?}", m.lim[*i])));
                    ensure!(
                        store[*i].iter().any(|x| (x.value == *v || (x.value - v).abs() <= x.tol) && visible(&store[*i], x, e.start, e.end)),
                        "{}",
                        err(format!("position {v} is read from joint {i}, which held {:?}", store[*i]))
                    );
                }
                What::ReadOrigin(i, bits) => {
                    ensure!(
                        origins[*i].iter().any(|w| w.3 == *bits && w.0 <= e.end && !origins[*i].iter().any(|x| x.0 > w.1 && x.1 < e.start)),
                        "{}",
                        err(format!("an origin is read from joint {i}, which it did not have"))
                    );
                }
                What::Product(path, got, fresh) => {
                    // cached transforms may be older than the call
                    let from = if *fresh { e.start } else { 0 };
                    let mut options: Vec<Vec<(Iso, f64)>> = vec![];
                    let mut count = 1usize;
                    let mut mm = m.clone();
                    let mut len = 0.0f64;
                    for i in path {
                        let mut o = vec![];
                        let mut longest = 0.0f64;
                        for org in origin_visible(*i, from, e.end) {
                            for x in store[*i].iter().filter(|x| visible(&store[*i], x, from, e.end)) {
                                mm.pos[*i] = x.value;
                                mm.origin[*i] = org;
                                let l = mm.local(*i);
                                longest = longest.max(norm(l.t) + x.value.abs() * f64::from(u8::from(m.kind[*i] == Kind::Lin)) + norm(org.t));
                                o.push((l, x.tol));
                            }
                        }
                        len += longest;
                        count = count.saturating_mul(o.len());
                        options.push(o);
                    }
                    if count > 3000 {
                        continue;
                    }
                    products += 1;
                    let n = path.len() as f64 + 3.0;
                    let tol = (16.0 * T::EPS * n, 16.0 * T::EPS * n * (1.0 + len));
                    ensure!(
                        product_of(&options, got, tol, len),
                        "{}",
                        err(format!("the pose {got:?} of the path {path:?} is not composed of transforms which the joints had"))
                    );
                }
            }
        }
    }
    // ---- what is left
    let mut last = m.clone();
    for i in 0..m.n {
        let err = |s: String| format!("at the end: {s}; everything that happened: {logs:?}");
        let p = b.nodes[i].joint_position().map(|p| p.d());
        ensure!(p.is_some() == m.movable(i), "{}", err(format!("joint {i} has position {p:?}")));
        if let Some(v) = p {
            ensure!(m.in_limits(i, v), "{}", err(format!("joint {i} is out of its limits at {v}")));
            ensure!(
                store[i].iter().any(|x| (x.value == v || (x.value - v).abs() <= x.tol) && visible(&store[i], x, end, end)),
                "{}",
                err(format!("joint {i} holds {v}, it was set to {:?}", store[i]))
            );
            last.pos[i] = v;
        }
        let bits = iso_bits(&b.nodes[i].origin());
        match origins[i].iter().find(|w| w.3 == bits && !origins[i].iter().any(|x| x.0 > w.1)) {
            Some(w) => last.origin[i] = w.2,
            None => return Err(err(format!("joint {i} has an origin which was not set last"))),
        }
    }
    let mut followers = 0;
    for i in 0..m.n {
        if let Some((l, a, o)) = m.leader[i] {
            // the first leader has been set, and never in vain
            let s = &store[i];
            if s.len() > 1 && s.iter().all(|x| x.sure) {
                followers += 1;
                let v = last.pos[l] * a + o;
                let tol = 4.0 * T::EPS * ((last.pos[l] * a).abs() + o.abs()) + 1e-40;
                ensure!(
                    (last.pos[i] - v).abs() <= tol,
                    "at the end: follower {i} holds {}, but its leader {l} holds {} (times {a} plus {o}); everything that happened: {logs:?}",
                    last.pos[i],
                    last.pos[l]
                );
            }
        }
    }
    let c = case.last.chain(&m, &b);
    let idx = b.indices(&c)?;
    let t = c.update_transforms();
    ensure!(t.len() == idx.len(), "the last update returns {} transforms", t.len());
    for (i, t) in idx.iter().zip(&t) {
        let path = last.path(*i);
        let want = last.product(&path);
        for (what, t) in [("returned", Some(*t)), ("reported", b.nodes[*i].world_transform())] {
            let Some(t) = t else {
                return Err(format!("no transform of node {i} after the last update"));
            };
            close(&t, &want, last.tol(&path)).map_err(|e| format!("{what} transform of node {i} after the last update: {e}; everything that happened: {logs:?}"))?;
        }
    }
    for (c, idx) in serial.iter().zip(&serial_idx) {
        close(&c.end_transform(), &last.product(idx), last.tol(idx)).map_err(|e| format!("last end transform of {idx:?}: {e}"))?;
    }
    // ---- two threads at one node
    let touched: Vec<Vec<usize>> = logs
        .iter()
        .map(|l| {
            let mut v: Vec<usize> = vec![];
            for e in l {
                match &e.what {
                    What::Write(i, ..) => {
                        v.push(*i);
                        v.extend(m.closure(*i));
                    }
                    What::Origin(i, ..) | What::Read(i, _) | What::ReadOrigin(i, _) => v.push(*i),
                    What::Product(p, ..) => v.extend(p),
                    What::Fault(_) => {}
                }
            }
            v
        })
        .collect();
    let written: Vec<Vec<usize>> = logs
        .iter()
        .map(|l| {
            l.iter()
                .flat_map(|e| match &e.what {
                    What::Write(i, ..) => std::iter::once(*i).chain(m.closure(*i)).collect(),
                    What::Origin(i, ..) => vec![*i],
                    _ => vec![],
                })
                .collect()
        })
        .collect();
    let conflict = (0..logs.len()).any(|a| (0..logs.len()).any(|b| a != b && written[a].iter().any(|i| touched[b].contains(i))));
    let overlap = (0..logs.len()).any(|a| {
        (0..a).any(|b| logs[a].iter().any(|x| logs[b].iter().any(|y| x.start < y.end && y.start < x.end)))
    });
    ctx.label(T::NAME);
    ctx.label(if out.controlled {
        "chosen schedule"
    } else if case.native {
        "free running"
    } else {
        "schedule given up"
    });
    ctx.label_if(out.switches >= case.threads.len() as u64, "preempted");
    ctx.label_if(overlap, "calls overlap");
    ctx.label_if(conflict, "conflicting accesses");
    ctx.label_if(reads > 0, "reads");
    ctx.label_if(products > 0, "poses");
    ctx.label_if(followers > 0, "followers");
    ctx.nontrivial = conflict && overlap;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C26";
    const RULE: &'static str = "2-4 threads with short programs over overlapping chains of a random tree with mimic joints, run in a generated schedule with preemptions at any lock of a node (a part of the cases with the threads of the system instead); non-trivial: one thread writes what another accesses and calls of different threads overlap";
    const TERMINATES: bool = true;
    const ASSUME: &'static [&'static str] = &[
        "schedules switch where a node is locked, which is the only sharing safe Rust code has there",
        "velocities, link elements, unchecked setters, inverse kinematics and edits of relations are not called concurrently",
        "clamped setters are called on joints without mimic relations",
    ];
    const QUICK: u64 = 160_000;
    const THOROUGH: u64 = 3_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let n = any::<u16>;
        let c = || 0u8..4;
        let v = || prop_oneof![6 => val_sel(false, false), 1 => val_sel(false, true)];
        let op = prop_oneof![
            6 => (n(), v()).prop_map(|(a, b)| Op::Set(a, b)),
            4 => (c(), vec(v(), 1..5)).prop_map(|(a, b)| Op::SetChain(a, b)),
            2 => (n(), v()).prop_map(|(a, b)| Op::Clamp(a, b)),
            2 => (n(), pose()).prop_map(|(a, b)| Op::Origin(a, b)),
            2 => n().prop_map(Op::Pos),
            2 => c().prop_map(Op::Positions),
            1 => n().prop_map(Op::OriginOf),
            2 => c().prop_map(Op::End),
            4 => c().prop_map(Op::Update),
            1 => n().prop_map(Op::World),
            1 => (c(), n()).prop_map(|(a, b)| Op::Find(a, b)),
            1 => n().prop_map(Op::Walk),
            1 => c().prop_map(Op::Print),
        ];
        let cfg = |lim| Cfg {
            mimics: 0.45,
            limits: lim,
            max: 6,
            ..Cfg::BASE
        };
        let t = vec(op, 1..5);
        let gap = prop_oneof![5 => 0u8..6, 3 => 0u8..25, 1 => any::<u8>()];
        (
            prop_oneof![2 => tree(cfg(false)), 1 => tree(cfg(true))],
            (vec(chain_sel(), 1..4), vec(serial_sel(), 1..3)),
            any::<bool>(),
            prop::bool::weighted(0.1),
            prop_oneof![5 => vec(t.clone(), 2..=2), 3 => vec(t.clone(), 3..=3), 1 => vec(t, 4..=4)],
            vec((gap, any::<u8>()), 0..14),
            chain_sel(),
        )
            .prop_map(|(tree, (chains, serial), warm, native, threads, plan, last)| Case {
                tree,
                chains,
                serial,
                warm,
                native,
                threads,
                plan,
                last,
            })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
