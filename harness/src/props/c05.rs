//! Mimic joints
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Set(u16, ValSel),
    SetChain(ChainSel, Vec<ValSel>),
    Retarget(u16, MimicSpec),
    Update(ChainSel),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub ops: Vec<Op>,
}

pub struct P;

/// what a follower must hold for the value of its leader, and how exactly
fn follow<T: Sc>(m: &Model, f: usize, leader_pos: f64) -> (f64, f64) {
    let (_, a, o) = m.leader[f].unwrap();
    (leader_pos * a + o, 4.0 * T::EPS * ((leader_pos * a).abs() + o.abs()) + 1e-40)
}

#[derive(PartialEq, Clone, Copy)]
enum Verdict {
    Accept,
    Reject,
    Either,
}

fn merge(a: Verdict, b: Verdict) -> Verdict {
    match (a, b) {
        (Verdict::Reject, _) | (_, Verdict::Reject) => Verdict::Reject,
        (Verdict::Either, _) | (_, Verdict::Either) => Verdict::Either,
        _ => Verdict::Accept,
    }
}

/// what has to happen to the followers of i if it is set to v (interval arithmetic with the rounding errors)
fn followers<T: Sc>(m: &Model, i: usize, v: f64, tol: f64) -> Verdict {
    let mut r = Verdict::Accept;
    for f in 0..m.n {
        if let Some((l, a, _)) = m.leader[f] {
            if l == i {
                let (w, t) = follow::<T>(m, f, v);
                let t = t + tol * a.abs();
                let own = match m.lim[f] {
                    None => Verdict::Accept,
                    Some((lo, hi)) => {
                        if w - t >= lo && w + t <= hi {
                            Verdict::Accept
                        } else if w + t < lo || w - t > hi {
                            Verdict::Reject
                        } else {
                            Verdict::Either
                        }
                    }
                };
                r = merge(r, merge(own, followers::<T>(m, f, w, t)));
            }
        }
    }
    r
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = Model::new::<T>(&case.tree);
    let b = Built::<T>::new(&case.tree, &m);
    let (mut moved, mut rejected_f, mut rejected_l, mut retargeted, mut deep, mut multi) = (0, 0, 0, 0, 0, 0);
    let movable: Vec<usize> = (0..m.n).filter(|i| m.movable(*i)).collect();
    if movable.is_empty() {
        return Ok(());
    }
    let pos = |b: &Built<T>| -> Vec<f64> { b.nodes.iter().map(|n| n.joint_position().map(|p| p.d()).unwrap_or(0.0)).collect() };
    for (step, op) in case.ops.iter().enumerate() {
        let before = snaps(&b.nodes);
        let old = pos(&b);
        // (joint, value) in the order of setting, and the result
        let (sets, r): (Vec<(usize, f64)>, Result<(), k::Error>) = match op {
            Op::Set(n, v) => {
                let i = movable[pick(*n, movable.len())];
                let v: T = v.finite(m.lim[i]);
                (vec![(i, v.d())], b.nodes[i].set_joint_position(v))
            }
            Op::SetChain(c, vals) => {
                let ch = c.chain(&m, &b);
                let idx: Vec<usize> = b.indices(&ch)?.into_iter().filter(|i| m.movable(*i)).collect();
                let q: Vec<T> = idx.iter().enumerate().map(|(j, i)| vals[j % vals.len()].finite::<T>(m.lim[*i])).collect();
                let r = ch.set_joint_positions(&q);
                (idx.into_iter().zip(q.iter().map(|x| x.d())).collect(), r)
            }
            Op::Retarget(n, s) => {
                let f = movable[pick(*n, movable.len())];
                let no: Vec<usize> = m.closure(f);
                let c: Vec<usize> = movable.iter().copied().filter(|j| *j != f && !no.contains(j)).collect();
                if !c.is_empty() {
                    let l = c[pick(s.sel, c.len())];
                    let (a, o) = (T::f(s.mult.0), T::f(s.off.0));
                    b.nodes[f].set_mimic_parent(&b.nodes[l], k::joint::Mimic::new(a, o));
                    m.leader[f] = Some((l, a.d(), o.d()));
                    retargeted += 1;
                }
                (vec![], Ok(()))
            }
            Op::Update(c) => {
                c.chain(&m, &b).update_transforms();
                (vec![], Ok(()))
            }
        };
        let now = pos(&b);
        let e = |s: String| {
            format!(
                "step {step} {op:?}: {s}; set (joint, value): {sets:?}, result {r:?}, leaders {:?}, limits {:?}, positions before {old:?} and after {now:?}",
                m.leader, m.lim
            )
        };
        // only positions change
        let after = snaps(&b.nodes);
        for i in 0..m.n {
            let mut w = before[i].clone();
            w.pos = after[i].pos;
            ensure!(after[i] == w, "{}", e(format!("node {i} changed in something else")));
        }
        for f in 0..m.n {
            let p = b.nodes[f].mimic_parent().and_then(|p| b.index(&p));
            ensure!(p == m.leader[f].map(|l| l.0), "{}", e(format!("node {f} reports the leader {p:?}")));
        }
        // no joint ever leaves its limits
        for i in 0..m.n {
            ensure!(m.in_limits(i, now[i]) || same(now[i], old[i]), "{}", e(format!("node {i} is out of its limits")));
        }
        let real: Vec<(usize, f64)> = sets.iter().copied().filter(|(i, _)| m.leader[*i].is_none()).collect();
        let mut touched: Vec<usize> = vec![];
        for (i, _) in &real {
            touched.push(*i);
            touched.extend(m.closure(*i));
        }
        for i in 0..m.n {
            ensure!(touched.contains(&i) || same(now[i], old[i]), "{}", e(format!("node {i} does not follow, but it changed")));
        }
        // the expected outcome
        let mut verdict = Verdict::Accept;
        for (i, v) in &real {
            let own = if m.in_limits(*i, *v) { Verdict::Accept } else { Verdict::Reject };
            verdict = merge(verdict, own);
            verdict = merge(verdict, followers::<T>(&m, *i, *v, 0.0));
        }
        match &r {
            Ok(()) => {
                ensure!(verdict != Verdict::Reject, "{}", e("accepted".into()));
                for (i, v) in &real {
                    ensure!(same(now[*i], *v), "{}", e(format!("node {i} does not hold its value")));
                    for f in m.closure(*i) {
                        let (w, t) = follow::<T>(&m, f, now[m.leader[f].unwrap().0]);
                        ensure!((now[f] - w).abs() <= t, "{}", e(format!("node {f} holds {} instead of {w}", now[f])));
                        moved += usize::from(now[f] != old[f]);
                        deep += usize::from(m.leader[f].unwrap().0 != *i);
                    }
                    multi += usize::from((0..m.n).filter(|f| m.leader[*f].map(|l| l.0) == Some(*i)).count() > 1);
                }
            }
            Err(err) => {
                ensure!(verdict != Verdict::Accept, "{}", e("rejected".into()));
                ensure!(matches!(err, k::Error::OutOfLimitError { .. }), "{}", e("wrong error".into()));
                if let Op::Set(..) = op {
                    let (i, v) = real[0];
                    if !m.in_limits(i, v) {
                        rejected_l += 1;
                        for j in 0..m.n {
                            ensure!(same(now[j], old[j]), "{}", e(format!("the leader rejects, but node {j} changed")));
                        }
                    } else {
                        rejected_f += 1;
                    }
                }
            }
        }
    }
    ctx.label(T::NAME);
    ctx.label_if(moved > 0, "follower moved");
    ctx.label_if(rejected_f > 0, "follower rejects");
    ctx.label_if(rejected_l > 0, "leader rejects");
    ctx.label_if(retargeted > 0, "re-targeted");
    ctx.label_if(deep > 0, "follower of a follower");
    ctx.label_if(multi > 0, "several followers");
    ctx.nontrivial = moved > 0;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C05";
    const RULE: &'static str = "random tree with a forest of mimic relations between its joints, history of settings of joints and chains and of re-targetings; non-trivial: a setting moved a follower";
    const ASSUME: &'static [&'static str] = &[
        "relations have no cycles, leaders are alive, followers are movable",
        "follower positions are compared with 4 eps, values within this distance of a limit may be accepted or not",
        "only checked settings move followers: clamped and unchecked setters address a joint alone",
    ];
    const QUICK: u64 = 600_000;
    const THOROUGH: u64 = 8_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let n = any::<u16>;
        let v = || prop_oneof![6 => val_sel(false, false), 2 => val_sel(false, true)];
        let m = (n(), multiplier(), offset())
            .prop_map(|(sel, mult, off)| MimicSpec { sel, mult, off });
        let op = prop_oneof![
            5 => (n(), v()).prop_map(|(a, b)| Op::Set(a, b)),
            3 => (chain_sel(), vec(v(), 1..6)).prop_map(|(c, v)| Op::SetChain(c, v)),
            2 => (n(), m).prop_map(|(a, s)| Op::Retarget(a, s)),
            1 => chain_sel().prop_map(Op::Update),
        ];
        let c = |lim| Cfg {
            mimics: 0.5,
            limits: lim,
            ..Cfg::BASE
        };
        (prop_oneof![1 => tree(c(true)), 1 => tree(c(false))], vec(op, 1..10))
            .prop_map(|(tree, ops)| Case { tree, ops })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
