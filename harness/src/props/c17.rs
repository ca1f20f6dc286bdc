//! World velocities
use crate::math::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Set(u16, ValSel),
    Origin(u16, PoseSpec),
    Transforms(ChainSel),
    Links(ChainSel),
    Velocities(ChainSel),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub ops: Vec<Op>,
    pub last: ChainSel,
    /// velocities tried on joints before they become nodes
    pub tries: Vec<F>,
}

pub struct P;

/// Motion of the last node of a path, and the allowed errors of rotation, translation and their velocities
pub struct Expected {
    pub d: Dual,
    pub tr: f64,
    pub tt: f64,
    pub tw: f64,
    pub tv: f64,
}
pub fn expected(m: &Model, p: &[usize]) -> Expected {
    let d = p.iter().fold(Dual::ID, |a, j| a.mul(&m.local_dual(*j, m.vel[*j])));
    let (tr, tt) = m.tol(p);
    let rate: f64 = p.iter().map(|j| m.vel[*j].abs()).sum();
    let n = p.len() as f64 + 1.0;
    // (not below the least numbers)
    let (tw, tv) = (8.0 * tr * (rate + 1e-30), 8.0 * tt * (rate + 1e-30) * n);
    Expected { d, tr, tt, tw, tv }
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = Model::new::<T>(&case.tree);
    // velocities of single joints
    for (i, x) in case.tree.nodes.iter().enumerate() {
        let mut j = build_joint::<T>(x, &m, i);
        let pos = j.joint_position().map(|p| p.bits());
        for v in &case.tries {
            let v = T::f(v.0);
            let r = j.set_joint_velocity(v);
            if m.movable(i) {
                ensure!(r.is_ok(), "velocity {:?} of movable joint {i} is rejected: {r:?}", v.d());
                ensure!(j.joint_velocity().map(|x| x.bits()) == Some(v.bits()), "velocity {:?} reads as {:?}", v.d(), j.joint_velocity());
            } else {
                match r {
                    Err(k::Error::SetToFixedError { ref joint_name }) if *joint_name == m.name[i] => {}
                    _ => return Err(format!("velocity of fixed joint {i}: {r:?}")),
                }
                ensure!(j.joint_velocity().is_none(), "fixed joint {i} has the velocity {:?}", j.joint_velocity());
            }
            ensure!(j.joint_position().map(|p| p.bits()) == pos, "setting the velocity moved joint {i}");
        }
    }
    let b = Built::<T>::new(&case.tree, &m);
    for i in 0..m.n {
        let v = b.nodes[i].joint().joint_velocity().map(|v| v.d());
        let want = if m.movable(i) { Some(m.vel[i]) } else { None };
        ensure!(v == want, "joint {i} has the velocity {v:?} instead of {want:?}");
    }
    let last = Op::Velocities(case.last.clone());
    let mut nontrivial = false;
    let mut updates = 0;
    for (step, op) in case.ops.iter().chain(std::iter::once(&last)).enumerate() {
        let before = snaps(&b.nodes);
        match op {
            Op::Set(n, v) => {
                let i = pick(*n, m.n);
                let v: T = v.finite(m.lim[i]);
                if b.nodes[i].set_joint_position(v).is_ok() {
                    m.pos[i] = v.d();
                }
                continue;
            }
            Op::Origin(n, p) => {
                let i = pick(*n, m.n);
                b.nodes[i].set_origin(pose_na::<T>(p));
                m.origin[i] = pose_iso::<T>(p);
                continue;
            }
            Op::Transforms(c) => {
                c.chain(&m, &b).update_transforms();
            }
            Op::Links(c) => {
                c.chain(&m, &b).update_link_transforms();
            }
            Op::Velocities(c) => {
                updates += 1;
                let ch = c.chain(&m, &b);
                let idx = b.indices(&ch)?;
                let vs = ch.update_velocities();
                ensure!(vs.len() == idx.len(), "step {step}: {} velocities for {} nodes", vs.len(), idx.len());
                for (v, i) in vs.iter().zip(&idx) {
                    let p = m.path(*i);
                    let Expected { d, tr, tt, tw, tv } = expected(&m, &p);
                    let (gv, gw) = (v3(&v.translation), v3(&v.rotation));
                    let w = d.omega();
                    ensure!(vdiff(gw, w) <= tw, "step {step}: node {i} turns with {gw:?} instead of {w:?} (allowed error {tw:e}); path {p:?}, velocities {:?}, positions {:?}", m.vel, m.pos);
                    ensure!(vdiff(gv, d.dt) <= tv, "step {step}: node {i} moves with {gv:?} instead of {:?} (allowed error {tv:e}); path {p:?}, velocities {:?}, positions {:?}", d.dt, m.vel, m.pos);
                    let r = b.nodes[*i].world_velocity();
                    let Some(r) = r else { return Err(format!("step {step}: node {i} reports no velocity")) };
                    ensure!(v3(&r.translation) == gv && v3(&r.rotation) == gw, "step {step}: node {i} reports {r:?}, returned was {v:?}");
                    let Some(t) = b.nodes[*i].world_transform() else {
                        return Err(format!("step {step}: node {i} has no world transform after updating velocities"));
                    };
                    close(&t, &d.p, (tr, tt)).map_err(|e| format!("step {step}: node {i} after updating velocities: {e}"))?;
                    // moving joint below a moving joint
                    nontrivial |= p.iter().filter(|j| m.vel[**j] != 0.0).count() >= 2;
                    ctx.label_if(p.iter().any(|j| m.vel[*j] != 0.0 && !idx.contains(j)), "moved by joints above the chain");
                    ctx.label_if(p.iter().any(|j| m.kind[*j] == Kind::Lin && m.vel[*j] != 0.0), "linear joint");
                }
            }
        }
        ensure!(snaps(&b.nodes) == before, "step {step}: {op:?} changed the joints");
    }
    ctx.label(T::NAME);
    ctx.label_if(updates > 1, "several updates");
    ctx.nontrivial = nontrivial;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C17";
    const RULE: &'static str = "random tree with joint velocities, history of moving joints and updating chains of all kinds, and updating velocities; compared with the exact derivative of the matrix products; non-trivial: a node with at least two moving joints on its path";
    const TERMINATES: bool = true;
    const ASSUME: &'static [&'static str] = &["equal up to rounding errors of the length of the path and the joint velocities"];
    const QUICK: u64 = 480_000;
    const THOROUGH: u64 = 5_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let t = tree(Cfg {
            links: false,
            big: true,
            ..Cfg::BASE
        });
        let op = prop_oneof![
            3 => (any::<u16>(), val_sel(false, true)).prop_map(|(a, b)| Op::Set(a, b)),
            1 => (any::<u16>(), pose()).prop_map(|(a, b)| Op::Origin(a, b)),
            1 => chain_sel().prop_map(Op::Transforms),
            1 => chain_sel().prop_map(Op::Links),
            3 => chain_sel().prop_map(Op::Velocities),
        ];
        let v = prop_oneof![3 => f(-10.0..10.0f64), 2 => wide(-30.0, 30.0), 1 => prop::sample::select(vec![f64::INFINITY, f64::NEG_INFINITY, 0.0, 1e300]).prop_map(F)];
        // now and then all are slow or fast
        let all = prop_oneof![6 => Just(1.0f64), 1 => (-9.0..6.0f64).prop_map(|e| 10f64.powf(e))];
        (t, vec(op, 0..6), chain_sel(), vec(v, 0..3), all)
            .prop_map(|(mut tree, ops, last, tries, all)| {
                for n in &mut tree.nodes {
                    n.vel.0 *= all;
                }
                Case { tree, ops, last, tries }
            })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
