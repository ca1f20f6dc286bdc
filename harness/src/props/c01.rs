//! Forward kinematics
use crate::math::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Set(u16, F),
    SetClamped(u16, F),
    SetUnchecked(u16, F),
    Origin(u16, PoseSpec),
    ChainOrigin(ChainSel, PoseSpec),
    SetAll(ChainSel, Vec<F>),
    Update(ChainSel),
    End(ChainSel),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub ops: Vec<Op>,
    pub chain: ChainSel,
}

pub struct P;

fn op() -> BoxedStrategy<Op> {
    let n = any::<u16>;
    prop_oneof![
        3 => (n(), position()).prop_map(|(a, b)| Op::Set(a, b)),
        1 => (n(), position()).prop_map(|(a, b)| Op::SetClamped(a, b)),
        1 => (n(), position()).prop_map(|(a, b)| Op::SetUnchecked(a, b)),
        2 => (n(), pose()).prop_map(|(a, b)| Op::Origin(a, b)),
        1 => (chain_sel(), pose()).prop_map(|(a, b)| Op::ChainOrigin(a, b)),
        2 => (chain_sel(), vec(position(), 0..6)).prop_map(|(a, b)| Op::SetAll(a, b)),
        4 => chain_sel().prop_map(Op::Update),
        1 => serial_sel().prop_map(Op::End),
    ]
    .boxed()
}

/// checks the result of update_transforms and what the nodes report then
pub fn check_chain<T: Sc>(m: &Model, b: &Built<T>, c: &k::Chain<T>) -> Res {
    let idx = b.indices(c)?;
    let before = b.positions();
    let got = c.update_transforms();
    ensure!(got.len() == idx.len(), "update_transforms returned {} transforms for {} nodes", got.len(), idx.len());
    for (i, g) in idx.iter().zip(got.iter()) {
        let path = m.path(*i);
        let want = m.product(&path);
        let tol = m.tol(&path);
        close(g, &want, tol).map_err(|e| format!("returned for {} (node {i}): {e}", m.name[*i]))?;
        let rep = b.nodes[*i].world_transform();
        let Some(rep) = rep else {
            return Err(format!("{} (node {i}) reports no transform after the update", m.name[*i]));
        };
        close(&rep, &want, tol).map_err(|e| format!("reported by {} (node {i}): {e}", m.name[*i]))?;
    }
    ensure!(b.positions() == before, "update_transforms changed positions from {before:?} to {:?}", b.positions());
    Ok(())
}

pub fn check_end<T: Sc>(m: &Model, b: &Built<T>, c: &k::SerialChain<T>, expected: &[usize]) -> Res {
    let _ = b;
    let got = c.end_transform();
    close(&got, &m.product(expected), m.tol(expected)).map_err(|e| format!("end transform of {expected:?}: {e}"))
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = Model::new::<T>(&case.tree);
    let b = Built::<T>::new(&case.tree, &m);
    let mut updated = false;
    let mut changed_after_update = false;
    for (step, op) in case.ops.iter().enumerate() {
        let fail = |e: String| format!("step {step}: {e}");
        let mut changed = true;
        match op {
            Op::Set(n, v) => {
                let i = pick(*n, m.n);
                let v = T::f(v.0);
                if b.nodes[i].set_joint_position(v).is_ok() {
                    m.pos[i] = v.d();
                }
            }
            Op::SetClamped(n, v) => {
                let i = pick(*n, m.n);
                if m.movable(i) {
                    let v = T::f(v.0);
                    b.nodes[i].set_joint_position_clamped(v);
                    m.pos[i] = match m.lim[i] {
                        Some((lo, hi)) => v.d().max(lo).min(hi),
                        None => v.d(),
                    };
                }
            }
            Op::SetUnchecked(n, v) => {
                let i = pick(*n, m.n);
                if m.movable(i) {
                    let v = T::f(v.0);
                    b.nodes[i].set_joint_position_unchecked(v);
                    m.pos[i] = v.d();
                }
            }
            Op::Origin(n, p) => {
                let i = pick(*n, m.n);
                b.nodes[i].set_origin(pose_na::<T>(p));
                m.origin[i] = pose_iso::<T>(p);
            }
            Op::ChainOrigin(c, p) => {
                let i = c.expected(&m)[0];
                c.chain(&m, &b).set_origin(pose_na::<T>(p));
                m.origin[i] = pose_iso::<T>(p);
            }
            Op::SetAll(c, v) => {
                let ch = c.chain(&m, &b);
                let idx: Vec<usize> = b.indices(&ch)?.into_iter().filter(|i| m.movable(*i)).collect();
                let mut q: Vec<T> = ch.joint_positions();
                for (a, x) in q.iter_mut().zip(v) {
                    *a = T::f(x.0);
                }
                if ch.set_joint_positions(&q).is_ok() {
                    for (i, x) in idx.iter().zip(q) {
                        m.pos[*i] = x.d();
                    }
                } else {
                    // which joints were set is left open
                    for i in idx {
                        m.pos[i] = b.nodes[i].joint_position().map(|p| p.d()).unwrap_or(0.0);
                    }
                }
            }
            Op::Update(c) => {
                check_chain(&m, &b, &c.chain(&m, &b)).map_err(fail)?;
                updated = true;
                changed = false;
            }
            Op::End(c) => {
                check_end(&m, &b, &c.serial(&m, &b), &c.expected(&m)).map_err(fail)?;
                changed = false;
            }
        }
        changed_after_update |= changed && updated;
    }
    let c = case.chain.chain(&m, &b);
    check_chain(&m, &b, &c)?;
    // everything is up to date now, and nothing may change by doing it again
    check_chain(&m, &b, &c).map_err(|e| format!("second update: {e}"))?;
    if matches!(case.chain.kind, 1 | 2) {
        check_end(&m, &b, &case.chain.serial(&m, &b), &case.chain.expected(&m))?;
    }
    let exp = case.chain.expected(&m);
    ctx.label(T::NAME);
    ctx.label_if(m.ends().len() > 1, "branched");
    ctx.label_if(m.n > 20, "more than 20 nodes");
    ctx.label_if(exp[0] != 0, "chain not from the root");
    ctx.label_if(changed_after_update, "changed after an update");
    ctx.label_if(m.kind.contains(&Kind::Lin), "linear joint");
    ctx.label_if(m.pos.iter().any(|p| p.abs() > 7.0), "many turns");
    let deep = exp.iter().any(|i| {
        let p = m.path(*i);
        p.len() >= 2 && p[..p.len() - 1].iter().any(|j| m.movable(*j) && m.pos[*j] != 0.0)
    });
    ctx.nontrivial = deep && exp.iter().any(|i| mdiff(&m.origin[*i].r, &I3) > 1e-6);
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C01";
    const RULE: &'static str = "random tree and history of position and origin changes and updates through any chain, then one chain is updated; non-trivial: a node of the chain lies below a moved joint and some origin of the chain is rotated";
    const ASSUME: &'static [&'static str] = &[
        "axes are not shorter than 2e-4 and origins are rigid; translations up to 100, positions up to 1000",
        "tolerance 16 eps times (depth + 3) times (1 + sum of the lengths on the path)",
    ];
    const QUICK: u64 = 600_000;
    const THOROUGH: u64 = 12_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let c = Cfg {
            big: true,
            ..Cfg::BASE
        };
        (tree(c), vec(op(), 0..8), chain_sel())
            .prop_map(|(tree, ops, chain)| Case { tree, ops, chain })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
