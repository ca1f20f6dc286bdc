//! Updates and evaluations while other threads move the joints
use super::c11::columns;
use super::c17::expected;
use super::c18::elements;
use super::c19::{com_of, inert};
use crate::math::*;
use crate::num::*;
use crate::runner::*;
use crate::sched;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// joint, value (none: where it is), clamped
    Set(u16, Option<ValSel>, bool),
    SetChain(u8, Option<Vec<ValSel>>, bool),
    /// none: where it is
    Origin(u16, Option<PoseSpec>),
    Transforms(u8),
    Velocities(u8),
    Links(u8),
    Com(u8),
    Jacobian(u8),
    End(u8),
    Clone(bool),
    /// what a node reports
    Reported(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub chains: Vec<ChainSel>,
    pub serial: Vec<ChainSel>,
    pub warm: bool,
    pub native: bool,
    pub threads: Vec<Vec<Op>>,
    pub plan: Vec<(u8, u8)>,
    pub last: ChainSel,
}

pub struct P;

struct World<'a, T: Sc> {
    m: &'a Model,
    b: &'a Built<T>,
    chains: &'a [k::Chain<T>],
    chain_idx: &'a [Vec<usize>],
    serial: &'a [k::SerialChain<T>],
    serial_idx: &'a [Vec<usize>],
    whole: &'a k::Chain<T>,
    whole_idx: &'a [usize],
    mass: &'a [Option<(f64, Iso)>],
    elems: &'a [Vec<Iso>],
    origins: &'a [k::nalgebra::Isometry3<T>],
    /// joints which anyone moves to another place, or might
    moved: &'a [bool],
    /// joints which were up to date at first and which nobody sets, nor one above them
    fresh: &'a [bool],
}

/// joints which are needed for the world transforms of some nodes
fn above(m: &Model, idx: &[usize]) -> Vec<usize> {
    idx.iter().flat_map(|i| m.path(*i)).collect()
}

fn velocity<T: Sc>(m: &Model, i: usize, v: &k::joint::Velocity<T>) -> Res {
    let x = expected(m, &m.path(i));
    let (gv, gw) = (v3(&v.translation), v3(&v.rotation));
    ensure!(vdiff(gw, x.d.omega()) <= x.tw, "node {i} turns with {gw:?} instead of {:?}", x.d.omega());
    ensure!(vdiff(gv, x.d.dt) <= x.tv, "node {i} moves with {gv:?} instead of {:?}", x.d.dt);
    Ok(())
}

fn placed<T: Sc>(m: &Model, i: usize, link: &Option<k::link::Link<T>>, origins: &[Iso], required: bool) -> Res {
    let got = link.as_ref().map(elements).unwrap_or_default();
    ensure!(got.len() == origins.len(), "the link of node {i} has {} elements instead of {}", got.len(), origins.len());
    let p = m.path(i);
    let (tr, tt) = m.tol(&p);
    for (k, ((_, w), o)) in got.iter().zip(origins).enumerate() {
        match w {
            None => ensure!(!required, "element {k} of node {i} has no world transform"),
            Some(w) => {
                let want = m.product(&p).mul(o);
                close(w, &want, (2.0 * tr, 2.0 * tt + 16.0 * T::EPS * (p.len() as f64 + 3.0) * norm(o.t))).map_err(|x| format!("element {k} of node {i}: {x}"))?;
            }
        }
    }
    Ok(())
}

fn com<T: Sc>(m: &Model, mass: &[Option<(f64, Iso)>], idx: &[usize], got: V3) -> Res {
    let total: f64 = idx.iter().filter_map(|i| mass[*i].map(|x| x.0)).sum();
    if total > 0.0 {
        let (want, tol) = com_of::<T>(m, mass, idx, total);
        ensure!(vdiff(got, want) <= tol, "centre of mass {got:?} instead of {want:?} (allowed error {tol:e}) of {idx:?}");
    }
    Ok(())
}

/// returns whether something was compared
fn step<T: Sc>(w: &World<T>, op: &Op) -> Result<bool, String> {
    let m = w.m;
    let rest = |deps: &[usize]| !deps.iter().any(|i| w.moved[*i]);
    match op {
        Op::Set(n, v, clamp) => {
            let i = pick(*n, m.n);
            let v = v.as_ref().map_or(T::f(m.pos[i]), |v| v.finite(m.lim[i]));
            if *clamp {
                w.b.nodes[i].set_joint_position_clamped(v);
            } else {
                let r = w.b.nodes[i].set_joint_position(v);
                let open = m.closure(i).iter().all(|f| m.lim[*f].is_none());
                if m.movable(i) && m.in_limits(i, v.d()) && open {
                    ensure!(r.is_ok(), "joint {i} rejects {:?}: {r:?}", v.d());
                }
            }
        }
        Op::SetChain(c, v, clamp) => {
            let c = *c as usize % w.chains.len();
            let q = values::<T>(m, &w.chain_idx[c], v);
            if *clamp {
                w.chains[c].set_joint_positions_clamped(&q);
            } else {
                let _ = w.chains[c].set_joint_positions(&q);
            }
        }
        Op::Origin(n, p) => {
            let i = pick(*n, m.n);
            w.b.nodes[i].set_origin(p.as_ref().map_or(w.origins[i], pose_na::<T>));
        }
        Op::Transforms(c) => {
            let c = *c as usize % w.chains.len();
            let idx = &w.chain_idx[c];
            let t = w.chains[c].update_transforms();
            ensure!(t.len() == idx.len(), "{} transforms", t.len());
            for (i, t) in idx.iter().zip(&t) {
                let p = m.path(*i);
                if rest(&p) {
                    close(t, &m.product(&p), m.tol(&p)).map_err(|x| format!("node {i}: {x}"))?;
                }
            }
            return Ok(rest(idx));
        }
        Op::Velocities(c) => {
            let c = *c as usize % w.chains.len();
            let idx = &w.chain_idx[c];
            let v = w.chains[c].update_velocities();
            ensure!(v.len() == idx.len(), "{} velocities", v.len());
            for (i, v) in idx.iter().zip(&v) {
                if rest(&m.path(*i)) {
                    velocity(m, *i, v)?;
                }
            }
            return Ok(rest(idx));
        }
        Op::Links(c) => {
            let c = *c as usize % w.chains.len();
            w.chains[c].update_link_transforms();
            for i in &w.chain_idx[c] {
                if rest(&m.path(*i)) {
                    let l = w.b.nodes[*i].link().clone();
                    placed(m, *i, &l, &w.elems[*i], true)?;
                }
            }
            return Ok(rest(&w.chain_idx[c]));
        }
        Op::Com(c) => {
            let c = *c as usize % w.chains.len();
            let got = k::center_of_mass(&w.chains[c]);
            if rest(&above(m, &w.chain_idx[c])) {
                com::<T>(m, w.mass, &w.chain_idx[c], v3(&got))?;
                return Ok(true);
            }
        }
        Op::Jacobian(c) => {
            let c = *c as usize % w.serial.len();
            let path = &w.serial_idx[c];
            let j = k::jacobian(&w.serial[c]);
            let dof = path.iter().filter(|i| m.movable(**i)).count();
            ensure!(j.nrows() == 6 && j.ncols() == dof, "{} rows and {} columns", j.nrows(), j.ncols());
            if rest(path) {
                let (tr, tt) = m.tol(path);
                for (c, x) in columns(m, path).iter().enumerate() {
                    for r in 0..6 {
                        let tol = 16.0 * if r < 3 { tt } else { tr };
                        ensure!((j[(r, c)].d() - x[r]).abs() <= tol, "row {r} of column {c} of the jacobian of {path:?} is {:?} instead of {:?}", j[(r, c)].d(), x[r]);
                    }
                }
                return Ok(true);
            }
        }
        Op::End(c) => {
            let c = *c as usize % w.serial.len();
            let path = &w.serial_idx[c];
            let t = w.serial[c].end_transform();
            if rest(path) {
                close(&t, &m.product(path), m.tol(path))?;
                return Ok(true);
            }
        }
        Op::Clone(links) => {
            let c = w.whole.clone();
            ensure!(c.iter().count() == m.n, "the clone has {} nodes", c.iter().count());
            for (x, i) in c.iter().zip(w.whole_idx) {
                ensure!(x.joint().name == m.name[*i], "the clone of node {i} is named {}", x.joint().name);
                let p = x.joint_position().map(|p| p.d());
                ensure!(p.is_some() == m.movable(*i), "the clone of node {i} has the position {p:?}");
                ensure!(w.moved[*i] || p.is_none() || p == Some(m.pos[*i]), "the clone of node {i} has the position {p:?}");
            }
            let v = c.update_velocities();
            if *links {
                c.update_link_transforms();
            }
            for ((x, v), i) in c.iter().zip(&v).zip(w.whole_idx) {
                if rest(&m.path(*i)) {
                    velocity(m, *i, v)?;
                    let l = x.link().clone();
                    placed(m, *i, &l, &w.elems[*i], *links)?;
                }
            }
        }
        Op::Reported(n) => {
            let i = pick(*n, m.n);
            let p = m.path(i);
            let (t, v, l) = (w.b.nodes[i].world_transform(), w.b.nodes[i].world_velocity(), w.b.nodes[i].link().clone());
            if rest(&p) {
                ensure!(!w.fresh[i] || t.is_some() && v.is_some(), "node {i} reports the transform {t:?} and the velocity {v:?}");
                if let Some(t) = t {
                    close(&t, &m.product(&p), m.tol(&p)).map_err(|x| format!("node {i}: {x}"))?;
                }
                if let Some(v) = &v {
                    velocity(m, i, v)?;
                }
                placed(m, i, &l, &w.elems[i], w.fresh[i])?;
            }
        }
    }
    Ok(false)
}

fn values<T: Sc>(m: &Model, idx: &[usize], v: &Option<Vec<ValSel>>) -> Vec<T> {
    let mov = idx.iter().filter(|i| m.movable(**i));
    match v {
        None => mov.map(|i| T::f(m.pos[*i])).collect(),
        Some(v) => mov.enumerate().map(|(j, i)| v[j % v.len()].finite::<T>(m.lim[*i])).collect(),
    }
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = Model::new::<T>(&case.tree);
    let b = Built::<T>::new(&case.tree, &m);
    if case.threads.is_empty() || case.chains.is_empty() || case.serial.is_empty() {
        return Ok(());
    }
    let chains: Vec<k::Chain<T>> = case.chains.iter().map(|c| c.chain(&m, &b)).collect();
    let chain_idx: Vec<Vec<usize>> = chains.iter().map(|c| b.indices(c)).collect::<Result<_, _>>()?;
    let serial: Vec<k::SerialChain<T>> = case.serial.iter().map(|c| c.serial(&m, &b)).collect();
    let serial_idx: Vec<Vec<usize>> = serial.iter().map(|c| b.indices(c)).collect::<Result<_, _>>()?;
    let whole = k::Chain::from_root(b.nodes[0].clone());
    let whole_idx = b.indices(&whole)?;
    let mass: Vec<Option<(f64, Iso)>> = case.tree.nodes.iter().map(|n| inert::<T>(&n.link)).collect();
    let elems: Vec<Vec<Iso>> = b
        .nodes
        .iter()
        .map(|n| n.link().as_ref().map(elements).unwrap_or_default().iter().map(|(o, _)| iso(o)).collect())
        .collect();
    let origins: Vec<_> = b.nodes.iter().map(|n| n.origin()).collect();
    let mut moved = vec![false; m.n];
    let mut touched = vec![false; m.n];
    let (mut writes, mut evals) = (0, 0);
    {
        let mut set = |i: usize, other: bool, all: bool| {
            moved[i] |= other;
            touched[i] = true;
            for f in m.closure(i) {
                touched[f] = true;
            }
            if all && m.leader[i].is_none() {
                for f in m.closure(i) {
                    moved[f] = true;
                }
            }
        };
        for op in case.threads.iter().flatten() {
            match op {
                Op::Set(n, v, clamp) => {
                    let i = pick(*n, m.n);
                    set(i, v.as_ref().is_some_and(|v| v.finite::<T>(m.lim[i]).d() != m.pos[i]), !clamp);
                    writes += 1;
                }
                Op::SetChain(c, v, clamp) => {
                    let idx = &chain_idx[*c as usize % chains.len()];
                    let mov: Vec<usize> = idx.iter().copied().filter(|i| m.movable(*i)).collect();
                    for (i, q) in mov.iter().zip(values::<T>(&m, idx, v)) {
                        set(*i, q.d() != m.pos[*i], !clamp);
                    }
                    writes += 1;
                }
                Op::Origin(n, p) => {
                    let i = pick(*n, m.n);
                    set(i, p.is_some(), false);
                    writes += 1;
                }
                Op::Reported(_) => {}
                _ => evals += 1,
            }
        }
    }
    if case.warm {
        whole.update_velocities();
        whole.update_link_transforms();
    }
    let fresh: Vec<bool> = (0..m.n).map(|i| case.warm && m.path(i).iter().all(|j| !touched[*j])).collect();
    let before = snaps(&b.nodes);
    let w = World {
        m: &m,
        b: &b,
        chains: &chains,
        chain_idx: &chain_idx,
        serial: &serial,
        serial_idx: &serial_idx,
        whole: &whole,
        whole_idx: &whole_idx,
        mass: &mass,
        elems: &elems,
        origins: &origins,
        moved: &moved,
        fresh: &fresh,
    };
    type Body<'a> = Box<dyn FnOnce() -> Result<usize, String> + Send + 'a>;
    let bodies: Vec<Body> = case
        .threads
        .iter()
        .map(|ops| {
            let w = &w;
            Box::new(move || {
                let mut exact = 0;
                for (j, op) in ops.iter().enumerate() {
                    exact += usize::from(step::<T>(w, op).map_err(|e| format!("call {j} {op:?}: {e}"))?);
                }
                Ok(exact)
            }) as Body
        })
        .collect();
    let out = sched::run(bodies, if case.native { None } else { Some(&case.plan) });
    ensure!(!out.deadlock, "deadlock: {:?}", case.threads);
    let mut exact = 0;
    for (t, r) in out.results.iter().enumerate() {
        match r {
            Ok(Ok(n)) => exact += n,
            Ok(Err(e)) => return Err(format!("thread {t}: {e}; moved joints {moved:?}")),
            Err(e) => {
                let all: Vec<_> = out.results.iter().filter_map(|r| r.as_ref().err()).collect();
                return Err(format!("thread {t} panics: {e}; all panics: {all:?}"));
            }
        }
    }
    // ---- what is left
    let after = snaps(&b.nodes);
    for i in 0..m.n {
        let mut x = before[i].clone();
        if moved[i] {
            x.pos = after[i].pos;
            x.origin = after[i].origin;
        }
        ensure!(x == after[i], "node {i} changed from {x:?} to {:?}", after[i]);
    }
    for i in 0..m.n {
        let n = &b.nodes[i];
        m.pos[i] = n.joint_position().map_or(0.0, |p| p.d());
        m.origin[i] = iso(&n.origin());
    }
    // no update keeps what it has calculated for another position of the joint
    let mut late = 0;
    for i in 0..m.n {
        let p = m.path(i);
        if p.iter().any(|j| *j != i && moved[*j]) {
            continue;
        }
        if let Some(t) = b.nodes[i].world_transform() {
            close(&t, &m.product(&p), m.tol(&p)).map_err(|x| format!("at the end, before an update: node {i} reports an old transform: {x}"))?;
            late += usize::from(moved[i]);
        }
        if let Some(v) = b.nodes[i].world_velocity() {
            velocity(&m, i, &v).map_err(|e| format!("at the end, before an update: node {i} reports an old velocity: {e}"))?;
        }
    }
    for (s, idx) in serial.iter().zip(&serial_idx) {
        close(&s.end_transform(), &m.product(idx), m.tol(idx)).map_err(|e| format!("at the end, before an update: end of {idx:?}: {e}"))?;
    }
    let c = case.last.chain(&m, &b);
    let idx = b.indices(&c)?;
    let v = c.update_velocities();
    ensure!(v.len() == idx.len(), "at the end: {} velocities", v.len());
    c.update_link_transforms();
    for (i, v) in idx.iter().zip(&v) {
        velocity(&m, *i, v).map_err(|e| format!("at the end: {e}"))?;
        let l = b.nodes[*i].link().clone();
        placed(&m, *i, &l, &elems[*i], true).map_err(|e| format!("at the end: {e}"))?;
        let p = m.path(*i);
        let t = b.nodes[*i].world_transform();
        let Some(t) = t else { return Err(format!("at the end: node {i} has no transform")) };
        close(&t, &m.product(&p), m.tol(&p)).map_err(|e| format!("at the end: node {i}: {e}"))?;
    }
    com::<T>(&m, &mass, &idx, v3(&k::center_of_mass(&c))).map_err(|e| format!("at the end: {e}"))?;
    ctx.label(T::NAME);
    ctx.label(if out.controlled {
        "chosen schedule"
    } else if case.native {
        "free running"
    } else {
        "schedule given up"
    });
    let preempted = out.switches >= case.threads.len() as u64;
    ctx.label_if(preempted, "preempted");
    ctx.label_if(exact > 0, "compared while joints are set");
    ctx.label_if(late > 0, "moved joint has a transform");
    ctx.label_if(moved.iter().any(|x| *x), "joints move");
    ctx.nontrivial = writes > 0 && evals > 0 && (preempted || case.native);
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C32";
    const RULE: &'static str = "2-4 threads, which set joints and origins (often to the values they have) and update and evaluate overlapping chains of a random tree with links, in a generated schedule with preemptions at any lock of a node; results which do not depend on moved joints are compared with the exact ones; non-trivial: a setting and an evaluation, and a preemption";
    const TERMINATES: bool = true;
    const ASSUME: &'static [&'static str] = &[
        "schedules switch where a node is locked, which is the only sharing safe Rust code has there",
        "results which depend on joints which are moved meanwhile are only compared after the threads have finished",
    ];
    const QUICK: u64 = 120_000;
    const THOROUGH: u64 = 3_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let n = any::<u16>;
        let c = || 0u8..4;
        let v = || prop::option::weighted(0.25, prop_oneof![6 => val_sel(false, false), 1 => val_sel(false, true)]);
        let vs = || prop::option::weighted(0.2, vec(val_sel(false, false), 1..4));
        let op = prop_oneof![
            6 => (n(), v(), prop::bool::weighted(0.3)).prop_map(|(a, b, c)| Op::Set(a, b, c)),
            3 => (c(), vs(), prop::bool::weighted(0.3)).prop_map(|(a, b, c)| Op::SetChain(a, b, c)),
            2 => (n(), prop::option::weighted(0.2, pose())).prop_map(|(a, b)| Op::Origin(a, b)),
            1 => c().prop_map(Op::Transforms),
            4 => c().prop_map(Op::Velocities),
            3 => c().prop_map(Op::Links),
            3 => c().prop_map(Op::Com),
            1 => c().prop_map(Op::Jacobian),
            1 => c().prop_map(Op::End),
            1 => any::<bool>().prop_map(Op::Clone),
            2 => n().prop_map(Op::Reported),
        ];
        let t = tree(Cfg {
            mimics: 0.1,
            links: true,
            max: 6,
            ..Cfg::BASE
        });
        let th = vec(op, 1..4);
        let gap = prop_oneof![5 => 0u8..6, 3 => 0u8..25, 1 => any::<u8>()];
        (
            t,
            (vec(chain_sel(), 1..4), vec(serial_sel(), 1..3)),
            any::<bool>(),
            prop::bool::weighted(0.1),
            prop_oneof![5 => vec(th.clone(), 2..=2), 3 => vec(th.clone(), 3..=3), 1 => vec(th, 4..=4)],
            vec((gap, any::<u8>()), 0..14),
            chain_sel(),
        )
            .prop_map(|(tree, (chains, serial), warm, native, threads, plan, last)| Case {
                tree,
                chains,
                serial,
                warm,
                native,
                threads,
                plan,
                last,
            })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
