//! Reported velocities are those of the last update
use super::c17::expected;
use crate::math::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum How {
    Checked,
    Clamped,
    Unchecked,
}

/// change of a copy of the joint of a node
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Copied {
    Pos(How, ValSel),
    Origin(PoseSpec),
    Vel(F),
    Nothing,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Set(How, u16, ValSel),
    SetChain(How, ChainSel, Vec<ValSel>),
    /// one setter of a node again and again, with two values by turns
    Spin(Option<How>, u16, u32, ValSel, ValSel),
    Origin(u16, PoseSpec),
    ChainOrigin(ChainSel, PoseSpec),
    Velocities(ChainSel),
    Transforms(ChainSel),
    Links(ChainSel),
    Jacobian(ChainSel),
    End(ChainSel),
    Print(ChainSel),
    Copy(u16, Copied),
    /// clone of the whole tree, whose subtree is then updated
    Clone(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub ops: Vec<Op>,
}

pub struct P;

/// a velocity and the allowed error
#[derive(Clone, Copy, Debug)]
struct Vel {
    v: V3,
    w: V3,
    tv: f64,
    tw: f64,
}

#[derive(Clone)]
struct Cache {
    allowed: Vec<Vel>,
    absent: bool,
}

fn now(m: &Model, i: usize) -> Vel {
    let e = expected(m, &m.path(i));
    Vel {
        v: e.d.dt,
        w: e.d.omega(),
        tv: e.tv,
        tw: e.tw,
    }
}

fn bits<T: Sc>(v: &k::joint::Velocity<T>) -> [u64; 6] {
    let (a, b) = (&v.translation, &v.rotation);
    [a[0].bits(), a[1].bits(), a[2].bits(), b[0].bits(), b[1].bits(), b[2].bits()]
}

fn same<T: Sc>(r: &k::joint::Velocity<T>, e: &Vel) -> bool {
    vdiff(v3(&r.translation), e.v) <= e.tv && vdiff(v3(&r.rotation), e.w) <= e.tw
}

fn set<T: Sc>(j: &k::Node<T>, how: How, v: T) -> bool {
    match how {
        How::Checked => j.set_joint_position(v).is_ok(),
        How::Clamped => {
            j.set_joint_position_clamped(v);
            true
        }
        How::Unchecked => {
            j.set_joint_position_unchecked(v);
            true
        }
    }
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = Model::new::<T>(&case.tree);
    let b = Built::<T>::new(&case.tree, &m);
    let mut cache = vec![
        Cache {
            allowed: vec![],
            absent: true
        };
        m.n
    ];
    let (mut updates, mut stale, mut origins, mut old, mut many) = (0, 0, 0, false, 0);
    for (step, op) in case.ops.iter().enumerate() {
        let e = |s: String| format!("step {step} {op:?}: {s}");
        let before: Vec<_> = b.nodes.iter().map(|n| (n.joint_position().map(|p| p.bits()), iso_bits(&n.origin()))).collect();
        let reported: Vec<_> = b.nodes.iter().map(|n| n.world_velocity().map(|v| bits(&v))).collect();
        // which nodes the call is about, and those who follow them
        let mut about: Vec<usize> = vec![];
        let mut covered: Vec<usize> = vec![];
        let mut maybe: Vec<usize> = vec![];
        let mut placed = vec![false; m.n];
        match op {
            Op::Set(how, n, v) => {
                let i = pick(*n, m.n);
                about.push(i);
                if *how != How::Unchecked || m.movable(i) {
                    set(&b.nodes[i], *how, v.finite(m.lim[i]));
                }
            }
            Op::SetChain(how, c, vals) => {
                let ch = c.chain(&m, &b);
                let idx: Vec<usize> = b.indices(&ch)?.into_iter().filter(|i| m.movable(*i)).collect();
                about.extend(&idx);
                let q: Vec<T> = idx.iter().enumerate().map(|(j, i)| vals[j % vals.len()].finite::<T>(m.lim[*i])).collect();
                match how {
                    How::Checked => {
                        let _ = ch.set_joint_positions(&q);
                    }
                    How::Clamped => ch.set_joint_positions_clamped(&q),
                    How::Unchecked => ch.set_joint_positions_unchecked(&q),
                }
            }
            Op::Spin(Some(how), n, times, v, w) => {
                let i = pick(*n, m.n);
                about.push(i);
                let (v, w): (T, T) = (v.finite(m.lim[i]), w.finite(m.lim[i]));
                for k in 0..if m.movable(i) { *times } else { 0 } {
                    set(&b.nodes[i], *how, if k % 2 == 0 { v } else { w });
                }
                many += 1;
            }
            Op::Spin(None, n, times, ..) => {
                let i = pick(*n, m.n);
                about.push(i);
                for k in 0..*times {
                    let mut p = b.nodes[i].origin();
                    p.translation.vector.x = T::f(if k % 2 == 0 { 0.25 } else { 0.5 });
                    b.nodes[i].set_origin(p);
                }
                m.origin[i] = iso(&b.nodes[i].origin());
                many += 1;
            }
            Op::Origin(n, p) => {
                let i = pick(*n, m.n);
                about.push(i);
                b.nodes[i].set_origin(pose_na::<T>(p));
                m.origin[i] = pose_iso::<T>(p);
            }
            Op::ChainOrigin(c, p) => {
                let ch = c.chain(&m, &b);
                let i = b.indices(&ch)?[0];
                about.push(i);
                ch.set_origin(pose_na::<T>(p));
                m.origin[i] = pose_iso::<T>(p);
            }
            Op::Velocities(c) => {
                let ch = c.chain(&m, &b);
                covered = b.indices(&ch)?;
                maybe = m.path(covered[0]);
                let v = ch.update_velocities();
                let (v, w): (Vec<_>, Vec<_>) = (v.iter().map(|v| Some(bits(v))).collect(), ch.iter().map(|n| n.world_velocity().map(|v| bits(&v))).collect());
                ensure!(v == w, "{}", e(format!("the update returns the velocities {v:?} but the nodes report {w:?}")));
                updates += 1;
            }
            Op::Transforms(c) => {
                c.chain(&m, &b).update_transforms();
            }
            Op::Links(c) => c.chain(&m, &b).update_link_transforms(),
            Op::Jacobian(c) => {
                k::jacobian(&c.serial(&m, &b));
            }
            Op::End(c) => {
                c.serial(&m, &b).end_transform();
            }
            Op::Print(c) => {
                let _ = format!("{}", c.chain(&m, &b));
            }
            Op::Copy(n, what) => {
                let i = pick(*n, m.n);
                let mut j = b.nodes[i].joint().clone();
                let (had, placed_at) = (j.world_velocity().is_some(), j.world_transform().map(|t| iso_bits(&t)));
                let was = (j.joint_position().map(|p| p.bits()), iso_bits(j.origin()), j.joint_velocity().map(|p| p.bits()));
                let mut keeps_place = false;
                match what {
                    Copied::Pos(how, v) => {
                        let v: T = v.finite(m.lim[i]);
                        match how {
                            How::Checked => {
                                let _ = j.set_joint_position(v);
                            }
                            How::Clamped => j.set_joint_position_clamped(v),
                            How::Unchecked => {
                                if m.movable(i) {
                                    j.set_joint_position_unchecked(v);
                                }
                            }
                        }
                    }
                    Copied::Origin(p) => j.set_origin(pose_na::<T>(p)),
                    Copied::Vel(v) => {
                        let _ = j.set_joint_velocity(T::f(v.0));
                        keeps_place = true;
                    }
                    Copied::Nothing => keeps_place = true,
                }
                let is = (j.joint_position().map(|p| p.bits()), iso_bits(j.origin()), j.joint_velocity().map(|p| p.bits()));
                if was != is {
                    ensure!(j.world_velocity().is_none(), "{}", e(format!("the changed copy of node {i} reports {:?}", j.world_velocity())));
                    ctx.label_if(had, "copy of a joint changed");
                } else if let Some(v) = j.world_velocity() {
                    ensure!(had && cache[i].allowed.iter().any(|a| same(&v, a)), "{}", e(format!("the copy of node {i} reports {v:?}")));
                }
                let p = j.world_transform().map(|t| iso_bits(&t));
                if keeps_place {
                    ensure!(p == placed_at, "{}", e(format!("the copy of node {i} is elsewhere")));
                } else if (was.0, was.1) != (is.0, is.1) {
                    ensure!(p.is_none(), "{}", e(format!("the changed copy of node {i} reports {:?}", j.world_transform())));
                }
                // and as a node of its own
                let n = k::Node::new(j);
                let ch = k::Chain::from_root(n.clone());
                let v = ch.update_velocities();
                let mut own = m.clone();
                own.origin[i] = iso(&n.origin());
                own.pos[i] = n.joint_position().map_or(0.0, |p| p.d());
                own.vel[i] = n.joint().joint_velocity().map_or(0.0, |p| p.d());
                let x = expected(&own, &[i]);
                let x = Vel {
                    v: x.d.dt,
                    w: x.d.omega(),
                    tv: x.tv,
                    tw: x.tw,
                };
                ensure!(v.len() == 1 && same(&v[0], &x), "{}", e(format!("the copy of node {i} alone moves with {v:?} instead of {x:?}")));
                ensure!(n.world_velocity().is_some_and(|v| same(&v, &x)), "{}", e(format!("the copy of node {i} alone reports {:?} instead of {x:?}", n.world_velocity())));
            }
            Op::Clone(n) => {
                let whole = k::Chain::from_root(b.nodes[0].clone());
                let idx = b.indices(&whole)?;
                let copy = whole.clone();
                let nodes: Vec<_> = copy.iter().cloned().collect();
                ensure!(nodes.len() == idx.len(), "{}", e("the clone has another number of nodes".into()));
                for (x, i) in nodes.iter().zip(&idx) {
                    if let Some(v) = x.world_velocity() {
                        ensure!(cache[*i].allowed.iter().any(|a| same(&v, a)), "{}", e(format!("the clone of node {i} reports {v:?}, {:?}", cache[*i].allowed)));
                    }
                }
                let x = &nodes[pick(*n, nodes.len())];
                let ch = k::Chain::from_root(x.clone());
                ch.update_velocities();
                for y in ch.iter() {
                    let i = idx[nodes.iter().position(|z| z == y).ok_or("the clone leads to other nodes")?];
                    let Some(v) = y.world_velocity() else { return Err(e(format!("the clone of node {i} reports no velocity after the update"))) };
                    ensure!(same(&v, &now(&m, i)), "{}", e(format!("the clone of node {i} reports {v:?} instead of {:?}", now(&m, i))));
                }
            }
        }
        // which joints have changed
        for i in 0..m.n {
            let n = &b.nodes[i];
            m.pos[i] = n.joint_position().map_or(0.0, |p| p.d());
            let is = (n.joint_position().map(|p| p.bits()), iso_bits(&n.origin()));
            cache[i].absent = true;
            placed[i] = is != before[i];
            if placed[i] {
                if !cache[i].allowed.is_empty() {
                    stale += 1;
                    origins += (is.1 != before[i].1) as u32;
                }
                cache[i].allowed.clear();
            }
        }
        for i in 0..m.n {
            let follows = b.nodes[i].mimic_parent().is_some();
            if !(about.contains(&i) || covered.contains(&i) || maybe.contains(&i) || follows && !about.is_empty()) {
                let v = b.nodes[i].world_velocity().map(|v| bits(&v));
                ensure!(v == reported[i], "{}", e(format!("the velocity which node {i} reports changes from {:?} to {v:?}", reported[i])));
            }
        }
        for i in maybe {
            cache[i].allowed.push(now(&m, i));
        }
        for i in covered {
            cache[i] = Cache {
                allowed: vec![now(&m, i)],
                absent: false,
            };
            let t = b.nodes[i].world_transform();
            let Some(t) = t else { return Err(e(format!("node {i} has no transform after updating velocities"))) };
            let x = expected(&m, &m.path(i));
            close(&t, &x.d.p, (x.tr, x.tt)).map_err(|s| e(format!("node {i} after updating velocities: {s}")))?;
        }
        for i in 0..m.n {
            match b.nodes[i].world_velocity() {
                None => ensure!(cache[i].absent, "{}", e(format!("node {i} reports no velocity after the update"))),
                Some(v) => {
                    ensure!(!cache[i].allowed.is_empty(), "{}", e(format!("node {i} reports the velocity {v:?} though it was changed and not updated since")));
                    ensure!(cache[i].allowed.iter().any(|a| same(&v, a)), "{}", e(format!("node {i} reports the velocity {v:?} which is not the one of the last update {:?}", cache[i].allowed)));
                    old |= !same(&v, &now(&m, i));
                }
            }
            let v = b.nodes[i].joint().joint_velocity().map(|v| v.d());
            ensure!(v == if m.movable(i) { Some(m.vel[i]) } else { None }, "{}", e(format!("node {i} has the joint velocity {v:?} instead of {:?}", m.vel[i])));
        }
    }
    ctx.label(T::NAME);
    ctx.label_if(origins > 0, "origin changed after an update");
    ctx.label_if(old, "keeps the velocity of the last update");
    ctx.label_if(many > 0, "many changes in a row");
    ctx.label_if(updates > 1, "several updates");
    ctx.nontrivial = stale > 0;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C31";
    const RULE: &'static str = "random tree with joint velocities, history of all setters, updates of all kinds, reading calls, copies of joints and clones; the reported velocities are compared after every step with the exact derivatives at the last update; non-trivial: a node is changed after an update of its velocity";
    const ASSUME: &'static [&'static str] = &[
        "an update also may refresh the ancestors of its chain",
        "a call which sets a joint to the value it has may remove its velocity",
    ];
    const QUICK: u64 = 400_000;
    const THOROUGH: u64 = 4_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let n = any::<u16>;
        let v = || prop_oneof![5 => val_sel(false, false), 1 => val_sel(false, true)];
        let how = || prop_oneof![3 => Just(How::Checked), 2 => Just(How::Clamped), 2 => Just(How::Unchecked)];
        let c = chain_sel;
        let copied = prop_oneof![
            2 => (how(), v()).prop_map(|(a, b)| Copied::Pos(a, b)),
            2 => pose().prop_map(Copied::Origin),
            2 => f(-10.0..10.0f64).prop_map(Copied::Vel),
            1 => Just(Copied::Nothing),
        ];
        let op = prop_oneof![
            1 => (prop::option::weighted(0.8, how()), n(), times(), v(), v()).prop_map(|(h, a, t, b, c)| Op::Spin(h, a, t, b, c)),
            12 => (how(), n(), v()).prop_map(|(h, a, b)| Op::Set(h, a, b)),
            9 => (how(), c(), vec(v(), 1..5)).prop_map(|(h, a, b)| Op::SetChain(h, a, b)),
            6 => (n(), pose()).prop_map(|(a, b)| Op::Origin(a, b)),
            3 => (c(), pose()).prop_map(|(a, b)| Op::ChainOrigin(a, b)),
            18 => c().prop_map(Op::Velocities),
            3 => c().prop_map(Op::Transforms),
            3 => c().prop_map(Op::Links),
            3 => serial_sel().prop_map(Op::Jacobian),
            3 => serial_sel().prop_map(Op::End),
            3 => c().prop_map(Op::Print),
            6 => (n(), copied).prop_map(|(a, b)| Op::Copy(a, b)),
            3 => n().prop_map(Op::Clone),
        ];
        let cfg = Cfg {
            mimics: 0.15,
            big: true,
            ..Cfg::BASE
        };
        (tree(cfg), vec(op, 1..12))
            .prop_map(|(tree, ops)| Case { tree, ops })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
