//! Chains are views of shared joints
use crate::math::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum How {
    Checked,
    Clamped,
    Unchecked,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Set(How, u16, ValSel),
    SetChain(How, u8, Vec<ValSel>),
    /// one setter of a node again and again, with two values by turns
    Spin(Option<How>, u16, u32, ValSel, ValSel),
    Origin(u16, PoseSpec),
    ChainOrigin(u8, PoseSpec),
    Update(u8),
    Updates(u8, u32),
    Velocities(u8),
    Links(u8),
    Jacobian(ChainSel),
    End(ChainSel),
    /// read only: must not change anything
    Print(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub chains: Vec<ChainSel>,
    pub ops: Vec<Op>,
}

pub struct P;

#[derive(Clone)]
struct Cache {
    allowed: Vec<(Iso, (f64, f64))>,
    absent: bool,
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = Model::new::<T>(&case.tree);
    let b = Built::<T>::new(&case.tree, &m);
    let chains: Vec<k::Chain<T>> = case.chains.iter().map(|c| c.chain(&m, &b)).collect();
    let idx: Vec<Vec<usize>> = chains.iter().map(|c| b.indices(c)).collect::<Result<_, _>>()?;
    let mov: Vec<Vec<usize>> = idx.iter().map(|v| v.iter().copied().filter(|i| m.movable(*i)).collect()).collect();
    let mut origin: Vec<[u64; 7]> = case.tree.nodes.iter().map(|x| iso_bits(&pose_na::<T>(&x.origin))).collect();
    let mut cache = vec![
        Cache {
            allowed: vec![],
            absent: true
        };
        m.n
    ];
    let base = snaps(&b.nodes);
    let (mut updates, mut stale, mut many) = (0, 0, 0);
    for (step, op) in case.ops.iter().enumerate() {
        let before = m.pos.clone();
        let mut covered: Vec<usize> = vec![];
        let mut maybe: Vec<usize> = vec![];
        let mut touched: Vec<usize> = vec![]; // own position or origin may have changed
        let mut origin_touched: Vec<usize> = vec![];
        match op {
            Op::Set(how, n, v) => {
                let i = pick(*n, m.n);
                let v: T = v.finite(m.lim[i]);
                match how {
                    How::Checked => {
                        let r = b.nodes[i].set_joint_position(v);
                        if r.is_ok() && m.leader[i].is_none() {
                            m.pos[i] = v.d();
                        }
                        touched.push(i);
                        // C05 tells what followers do
                        for f in m.closure(i) {
                            m.pos[f] = b.nodes[f].joint_position().unwrap().d();
                            touched.push(f);
                        }
                        if r.is_err() && m.movable(i) {
                            m.pos[i] = b.nodes[i].joint_position().unwrap().d();
                            ensure!(m.pos[i] == before[i] || m.pos[i] == v.d(), "step {step}: {} has {}", m.name[i], m.pos[i]);
                        }
                    }
                    How::Clamped => {
                        b.nodes[i].set_joint_position_clamped(v);
                        if m.movable(i) {
                            m.pos[i] = match m.lim[i] {
                                Some((lo, hi)) => v.d().max(lo).min(hi),
                                None => v.d(),
                            };
                        }
                        touched.push(i);
                    }
                    How::Unchecked => {
                        if m.movable(i) {
                            b.nodes[i].set_joint_position_unchecked(v);
                            m.pos[i] = v.d();
                            touched.push(i);
                        }
                    }
                }
            }
            Op::SetChain(how, c, vals) => {
                let c = *c as usize % chains.len();
                let q: Vec<T> = mov[c].iter().enumerate().map(|(j, i)| vals[j % vals.len()].finite::<T>(m.lim[*i])).collect();
                touched.extend(&mov[c]);
                match how {
                    How::Checked => {
                        let r = chains[c].set_joint_positions(&q);
                        for (i, v) in mov[c].iter().zip(&q) {
                            if m.leader[*i].is_some() {
                                continue;
                            }
                            let p = b.nodes[*i].joint_position().unwrap().d();
                            ensure!(p == v.d() || (r.is_err() && p == before[*i]), "step {step}: {} has {p}", m.name[*i]);
                            m.pos[*i] = p;
                            for f in m.closure(*i) {
                                m.pos[f] = b.nodes[f].joint_position().unwrap().d();
                                touched.push(f);
                            }
                        }
                    }
                    How::Clamped => {
                        chains[c].set_joint_positions_clamped(&q);
                        for (i, v) in mov[c].iter().zip(&q) {
                            m.pos[*i] = match m.lim[*i] {
                                Some((lo, hi)) => v.d().max(lo).min(hi),
                                None => v.d(),
                            };
                        }
                    }
                    How::Unchecked => {
                        chains[c].set_joint_positions_unchecked(&q);
                        for (i, v) in mov[c].iter().zip(&q) {
                            m.pos[*i] = v.d();
                        }
                    }
                }
            }
            Op::Spin(Some(how), n, times, v, w) => {
                let i = pick(*n, m.n);
                let (v, w): (T, T) = (v.finite(m.lim[i]), w.finite(m.lim[i]));
                for k in 0..if m.movable(i) { *times } else { 0 } {
                    let v = if k % 2 == 0 { v } else { w };
                    match how {
                        How::Checked => {
                            let _ = b.nodes[i].set_joint_position(v);
                        }
                        How::Clamped => b.nodes[i].set_joint_position_clamped(v),
                        How::Unchecked => b.nodes[i].set_joint_position_unchecked(v),
                    }
                }
                // C02, C03 and C05 tell where they are
                let moved: Vec<usize> = std::iter::once(i).chain(m.closure(i)).filter(|f| m.movable(*f)).collect();
                for f in moved {
                    m.pos[f] = b.nodes[f].joint_position().unwrap().d();
                    touched.push(f);
                }
                many += 1;
            }
            Op::Spin(None, n, times, ..) => {
                let i = pick(*n, m.n);
                for k in 0..*times {
                    let mut p = b.nodes[i].origin();
                    p.translation.vector.x = T::f(if k % 2 == 0 { 0.25 } else { 0.5 });
                    b.nodes[i].set_origin(p);
                }
                m.origin[i] = iso(&b.nodes[i].origin());
                origin[i] = iso_bits(&b.nodes[i].origin());
                origin_touched.push(i);
                many += 1;
            }
            Op::Updates(c, times) => {
                let c = *c as usize % chains.len();
                for _ in 0..(*times).min(600) {
                    chains[c].update_transforms();
                }
                covered.extend(&idx[c]);
                maybe.extend(m.path(idx[c][0]));
                updates += 1;
            }
            Op::Origin(n, p) => {
                let i = pick(*n, m.n);
                b.nodes[i].set_origin(pose_na::<T>(p));
                m.origin[i] = pose_iso::<T>(p);
                origin[i] = iso_bits(&pose_na::<T>(p));
                origin_touched.push(i);
            }
            Op::ChainOrigin(c, p) => {
                let c = *c as usize % chains.len();
                let i = idx[c][0];
                chains[c].set_origin(pose_na::<T>(p));
                m.origin[i] = pose_iso::<T>(p);
                origin[i] = iso_bits(&pose_na::<T>(p));
                origin_touched.push(i);
            }
            Op::Update(c) | Op::Velocities(c) | Op::Links(c) => {
                let c = *c as usize % chains.len();
                match op {
                    Op::Update(_) => {
                        chains[c].update_transforms();
                    }
                    Op::Velocities(_) => {
                        chains[c].update_velocities();
                    }
                    _ => chains[c].update_link_transforms(),
                }
                covered.extend(&idx[c]);
                maybe.extend(m.path(idx[c][0]));
                updates += 1;
            }
            Op::Jacobian(s) => {
                k::jacobian(&s.serial(&m, &b));
                maybe.extend(m.path(*s.expected(&m).last().unwrap()));
            }
            Op::End(s) => {
                s.serial(&m, &b).end_transform();
            }
            Op::Print(c) => {
                let c = *c as usize % chains.len();
                let _ = format!("{}", chains[c]);
                let _ = chains[c].joint_positions();
            }
        }
        // cached transforms
        let changed: Vec<usize> = touched
            .iter()
            .copied()
            .filter(|i| m.pos[*i] != before[*i])
            .chain(origin_touched.iter().copied())
            .collect();
        for c in cache.iter_mut() {
            c.absent = true;
        }
        for i in &changed {
            if !cache[*i].allowed.is_empty() {
                stale += 1;
            }
            cache[*i].allowed.clear();
        }
        for i in maybe {
            let p = m.path(i);
            cache[i].allowed.push((m.product(&p), m.tol(&p)));
        }
        for i in covered {
            let p = m.path(i);
            cache[i] = Cache {
                allowed: vec![(m.product(&p), m.tol(&p))],
                absent: false,
            };
        }
        // everybody sees the same state
        let e = |s: String| format!("step {step} {op:?}: {s}");
        for i in 0..m.n {
            let n = &b.nodes[i];
            let p = n.joint_position().map(|p| p.d());
            ensure!(p == if m.movable(i) { Some(m.pos[i]) } else { None }, "{}", e(format!("{} reads {p:?} instead of {}", m.name[i], m.pos[i])));
            ensure!(iso_bits(&n.origin()) == origin[i], "{}", e(format!("{} reads another origin", m.name[i])));
            match n.world_transform() {
                None => ensure!(cache[i].absent, "{}", e(format!("{} has no transform after the update", m.name[i]))),
                Some(t) => {
                    ensure!(!cache[i].allowed.is_empty(), "{}", e(format!("{} reports a transform though it was changed and not updated since", m.name[i])));
                    let ok = cache[i].allowed.iter().any(|(w, tol)| close(&t, w, *tol).is_ok());
                    ensure!(ok, "{}", e(format!("{} reports the transform {t:?} which is not the one of the last update {:?}", m.name[i], cache[i].allowed)));
                }
            }
            let s = snap(n);
            let mut w = base[i].clone();
            w.pos = s.pos;
            w.origin = s.origin;
            ensure!(s == w, "{}", e(format!("node {i} changed from {w:?} to {s:?}")));
        }
        for (c, ch) in chains.iter().enumerate() {
            let q: Vec<f64> = ch.joint_positions().iter().map(|p| p.d()).collect();
            let w: Vec<f64> = mov[c].iter().map(|i| m.pos[*i]).collect();
            ensure!(q == w, "{}", e(format!("chain {c} reads the positions {q:?} instead of {w:?}")));
            let q: Vec<f64> = ch.iter_joints().map(|j| j.joint_position().unwrap().d()).collect();
            ensure!(q == w, "{}", e(format!("joints of chain {c} read {q:?} instead of {w:?}")));
            ensure!(iso_bits(&ch.origin()) == origin[idx[c][0]], "{}", e(format!("chain {c} reads another origin")));
            for (n, i) in ch.iter().zip(&idx[c]) {
                let j = n.joint();
                ensure!(iso_bits(j.origin()) == origin[*i], "{}", e(format!("node {i} has another origin in chain {c}")));
            }
        }
    }
    let shared = (0..m.n).any(|i| m.movable(i) && idx.iter().filter(|v| v.contains(&i)).count() > 1);
    ctx.label(T::NAME);
    ctx.label_if(shared, "chains share a joint");
    ctx.label_if(stale > 0, "changed after an update");
    ctx.label_if(many > 0, "many changes in a row");
    ctx.label_if(updates > 1, "several updates");
    ctx.nontrivial = shared && stale > 0;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C06";
    const RULE: &'static str = "random tree, 2 to 4 chains over it, history of all setters through nodes and chains, origin changes, updates and reading calls; everything is compared after every step; non-trivial: two chains share a movable joint and a joint is changed after an update";
    const ASSUME: &'static [&'static str] = &[
        "an update also may refresh the ancestors of its chain",
        "a reported transform may be absent at any time except right after an update of its node",
    ];
    const QUICK: u64 = 600_000;
    const THOROUGH: u64 = 5_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let n = any::<u16>;
        let v = || prop_oneof![5 => val_sel(false, false), 1 => val_sel(false, true)];
        let how = || prop_oneof![3 => Just(How::Checked), 2 => Just(How::Clamped), 2 => Just(How::Unchecked)];
        let c = any::<u8>;
        let op = prop_oneof![
            1 => (prop::option::weighted(0.85, how()), n(), times(), v(), v()).prop_map(|(h, a, t, b, c)| Op::Spin(h, a, t, b, c)),
            1 => (c(), times()).prop_map(|(a, t)| Op::Updates(a, t)),
            12 => (how(), n(), v()).prop_map(|(h, a, b)| Op::Set(h, a, b)),
            9 => (how(), c(), vec(v(), 1..5)).prop_map(|(h, a, b)| Op::SetChain(h, a, b)),
            6 => (n(), pose()).prop_map(|(a, b)| Op::Origin(a, b)),
            3 => (c(), pose()).prop_map(|(a, b)| Op::ChainOrigin(a, b)),
            15 => c().prop_map(Op::Update),
            3 => c().prop_map(Op::Velocities),
            3 => c().prop_map(Op::Links),
            3 => serial_sel().prop_map(Op::Jacobian),
            3 => serial_sel().prop_map(Op::End),
            3 => c().prop_map(Op::Print),
        ];
        let cfg = Cfg {
            mimics: 0.15,
            ..Cfg::BASE
        };
        (tree(cfg), vec(chain_sel(), 2..=4), vec(op, 1..14))
            .prop_map(|(tree, chains, ops)| Case { tree, chains, ops })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
