//! Clamped position setting
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Node(u16, ValSel),
    Joint(u16, ValSel),
    Chain(ChainSel, Vec<ValSel>, u8),
    Range(u16, ValSel),
    /// without check, so that the position may be outside the limits
    Unchecked(u16, ValSel),
    /// each joint of the chain the position it has, a few others
    Same(ChainSel, Vec<(u16, ValSel)>),
    SameNode(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub ops: Vec<Op>,
}

pub struct P;

fn nearest(m: &Model, i: usize, v: f64) -> f64 {
    match m.lim[i] {
        Some((lo, _)) if v < lo => lo,
        Some((_, hi)) if v > hi => hi,
        _ => v,
    }
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = Model::new::<T>(&case.tree);
    let b = Built::<T>::new(&case.tree, &m);
    let mut joints: Vec<k::Joint<T>> = (0..m.n).map(|i| build_joint::<T>(&case.tree.nodes[i], &m, i)).collect();
    let (mut clamped, mut free, mut fixed, mut short, mut outside) = (0, 0, 0, 0, 0);
    let val = |m: &Model, i: usize, v: &ValSel| -> T {
        let v: T = v.get(m.lim[i]);
        if v.d().is_nan() {
            T::f(0.3)
        } else {
            v
        }
    };
    for (step, op) in case.ops.iter().enumerate() {
        let before = snaps(&b.nodes);
        match op {
            Op::Node(n, v) => {
                let i = pick(*n, m.n);
                let v = val(&m, i, v);
                b.nodes[i].set_joint_position_clamped(v);
                if m.movable(i) {
                    m.pos[i] = nearest(&m, i, v.d());
                    if m.pos[i] == v.d() {
                        free += 1
                    } else {
                        clamped += 1
                    }
                } else {
                    fixed += 1;
                }
            }
            Op::Joint(n, v) => {
                let i = pick(*n, m.n);
                let v = val(&m, i, v);
                joints[i].set_joint_position_clamped(v);
                let p = joints[i].joint_position().map(|p| p.d());
                if m.movable(i) {
                    ensure!(p == Some(nearest(&m, i, v.d())), "step {step}: joint with limits {:?} clamped {:?} to {p:?}", m.lim[i], v.d());
                } else {
                    ensure!(p.is_none(), "step {step}: fixed joint got position {p:?}");
                }
            }
            Op::Range(n, v) => {
                let i = pick(*n, m.n);
                if let Some((lo, hi)) = m.lim[i] {
                    let v = val(&m, i, v);
                    let r: k::joint::Range<T> = k::joint::Range::new(T::f(lo), T::f(hi));
                    ensure!(r.clamp(v).d() == nearest(&m, i, v.d()), "step {step}: {r:?} clamps {:?} to {:?}", v.d(), r.clamp(v).d());
                    ensure!(r.is_valid(v) == m.in_limits(i, v.d()), "step {step}: {r:?}.is_valid({:?}) = {}", v.d(), r.is_valid(v));
                }
            }
            Op::Chain(c, vals, len) => {
                let ch = c.chain(&m, &b);
                let idx: Vec<usize> = b.indices(&ch)?.into_iter().filter(|i| m.movable(*i)).collect();
                let len = if *len > 150 { idx.len() } else { (*len as usize) * (idx.len() + 1) / 151 };
                let q: Vec<T> = (0..len)
                    .map(|j| {
                        if vals.is_empty() {
                            T::f(0.5)
                        } else {
                            val(&m, idx[j], &vals[j % vals.len()])
                        }
                    })
                    .collect();
                ch.set_joint_positions_clamped(&q);
                for (i, v) in idx.iter().zip(&q) {
                    m.pos[*i] = nearest(&m, *i, v.d());
                    if m.pos[*i] == v.d() {
                        free += 1
                    } else {
                        clamped += 1
                    }
                }
                short += usize::from(len < idx.len());
            }
            Op::Unchecked(n, v) => {
                let i = pick(*n, m.n);
                let v = val(&m, i, v);
                b.nodes[i].set_joint_position_unchecked(v);
                joints[i].set_joint_position_unchecked(v);
                if m.movable(i) {
                    m.pos[i] = v.d();
                }
            }
            Op::Same(c, vals) => {
                let ch = c.chain(&m, &b);
                let idx: Vec<usize> = b.indices(&ch)?.into_iter().filter(|i| m.movable(*i)).collect();
                let mut q = ch.joint_positions();
                for (n, v) in vals {
                    if !q.is_empty() {
                        let j = pick(*n, q.len());
                        q[j] = val(&m, idx[j], v);
                    }
                }
                let set: Vec<f64> = q.iter().map(|v| v.d()).collect();
                ch.set_joint_positions_clamped(&q);
                for (i, v) in idx.iter().zip(&set) {
                    outside += usize::from(m.pos[*i] == *v && !m.in_limits(*i, *v));
                    m.pos[*i] = nearest(&m, *i, *v);
                }
            }
            Op::SameNode(n) => {
                let i = pick(*n, m.n);
                if m.movable(i) {
                    b.nodes[i].set_joint_position_clamped(T::f(m.pos[i]));
                    outside += usize::from(!m.in_limits(i, m.pos[i]));
                    m.pos[i] = nearest(&m, i, m.pos[i]);
                    let p = joints[i].joint_position().unwrap();
                    joints[i].set_joint_position_clamped(p);
                    let (w, g) = (nearest(&m, i, p.d()), joints[i].joint_position().map(|p| p.d()));
                    ensure!(g == Some(w), "step {step}: joint with limits {:?} clamped its position {:?} to {g:?}", m.lim[i], p.d());
                }
            }
        }
        let after = snaps(&b.nodes);
        for i in 0..m.n {
            let mut want = before[i].clone();
            want.pos = after[i].pos;
            ensure!(after[i] == want, "step {step}: clamped setting changed more than the position of {}", m.name[i]);
            let p = b.nodes[i].joint_position().map(|p| p.d());
            let w = if m.movable(i) { Some(m.pos[i]) } else { None };
            ensure!(p == w, "step {step} {op:?}: {} (limits {:?}) reads {p:?} instead of {w:?}", m.name[i], m.lim[i]);
        }
    }
    ctx.label(T::NAME);
    ctx.label_if(clamped > 0, "clamped");
    ctx.label_if(free > 0, "not clamped");
    ctx.label_if(fixed > 0, "fixed joint");
    ctx.label_if(outside > 0, "clamped to leave an invalid position");
    ctx.label_if(short > 0, "short vector");
    ctx.nontrivial = clamped > 0 && free > 0;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C03";
    const RULE: &'static str = "tree of up to 8 joints with any limits, history of clamped settings through node, joint, chain and range with values at, next to, inside, outside the limits, infinite and equal to a (possibly invalid) present position, vectors up to the degrees of freedom; non-trivial: a value is clamped and another one is not";
    const ASSUME: &'static [&'static str] = &["values are not NaN, vectors are not longer than the degrees of freedom, no mimic joints"];
    const QUICK: u64 = 700_000;
    const THOROUGH: u64 = 10_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let n = any::<u16>;
        let v = || val_sel(true, true);
        let op = prop_oneof![
            3 => (n(), v()).prop_map(|(a, b)| Op::Node(a, b)),
            1 => (n(), v()).prop_map(|(a, b)| Op::Joint(a, b)),
            3 => (chain_sel(), vec(v(), 1..6), any::<u8>()).prop_map(|(c, v, l)| Op::Chain(c, v, l)),
            1 => (n(), v()).prop_map(|(a, b)| Op::Range(a, b)),
            1 => (n(), v()).prop_map(|(a, b)| Op::Unchecked(a, b)),
            1 => (chain_sel(), vec((n(), v()), 0..3)).prop_map(|(c, v)| Op::Same(c, v)),
            1 => n().prop_map(Op::SameNode),
        ];
        let c = Cfg {
            max: 8,
            ..Cfg::BASE
        };
        (tree(c), vec(op, 1..10)).prop_map(|(tree, ops)| Case { tree, ops }).boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
