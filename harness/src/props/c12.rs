//! IK success
use super::arm::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use k::InverseKinematicsSolver;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub arm: ArmSpec,
    pub ik: IkSpec,
    /// use solve() with all coordinates constrained
    pub plain: bool,
    /// the solver with default tolerances
    #[serde(default)]
    pub stock: bool,
}

pub struct P;

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut rig = Rig::<T>::new(&case.arm)?;
    let mut spec = case.ik.clone();
    if case.plain {
        spec.mask = [true; 6];
        spec.ignored = vec![];
    }
    let c = rig.constraints(&spec);
    let (ign, bad) = rig.ignored(&c.ignored_joint_names);
    let target = rig.target(&spec.target, &ign);
    let mut s = solver::<T>(&spec);
    if case.stock {
        s = k::JacobianIkSolver::default();
        (spec.dist, spec.angle) = (F(s.allowable_target_distance.d()), F(s.allowable_target_angle.d()));
        ensure!(spec.dist.0 <= 0.01 && spec.angle.0 <= 0.05 && s.num_max_try > 0, "the default tolerances are {:?} and {:?}", spec.dist, spec.angle);
    }
    if let Some(o) = spec.objective.clone() {
        s.set_nullspace_function(Box::new(move |q| objective_value(&o, q)));
    }
    let before = snaps(&rig.b.nodes);
    let r = if case.plain { s.solve(&rig.arm, &target) } else { s.solve_with_constraints(&rig.arm, &target, &c) };
    ctx.label(T::NAME);
    let need = is_rigid(&spec.mask);
    if need == 0 && bad.is_empty() {
        ctx.label("nothing constrained");
        ensure!(r.is_ok(), "nothing is constrained, but: {r:?}");
        ensure!(snaps(&rig.b.nodes) == before, "nothing is constrained, but the robot moved");
    }
    if r.is_err() {
        return Ok(());
    }
    ctx.label("success");
    let start = rig.m.pos.clone();
    for i in rig.mov.clone() {
        let p = rig.b.nodes[i].joint_position().map(|p| p.d()).ok_or("no position")?;
        ensure!(rig.m.in_limits(i, p), "success, but joint {i} is at {p:?}, out of its limits {:?}", rig.m.lim[i]);
        rig.m.pos[i] = p;
    }
    let now = rig.m.product(&rig.path);
    let (e, angle) = pose_error(&iso(&target), &now);
    let (d, a) = norms(&e, &spec.mask);
    let (tr, tt) = rig.m.tol(&rig.path);
    let scale: f64 = (0..3).filter(|i| spec.mask[*i]).map(|i| target.translation.vector[i].d().abs()).sum();
    let (dist, ang) = (T::f(spec.dist.0).d(), T::f(spec.angle.0).d());
    let tol_d = 4.0 * tt + 8.0 * T::EPS * scale;
    ensure!(d < dist + tol_d, "success, but the distance is {d:e}, allowed {dist:e}; error {e:?}, positions {:?}", rig.m.pos);
    // the rotation vector of half a turn has two values
    let len = target.rotation.coords.iter().map(|x| x.d() * x.d()).sum::<f64>().sqrt();
    // what is no rotation has no angle, and may only be a target if rotations are free
    let rotation = spec.mask[3..].contains(&true) && (target.rotation.coords.iter().any(|x| !x.is_finite()) || (len - 1.0).abs() < 16.0 * T::EPS);
    if !(angle >= 3.14) && rotation {
        // and its direction is not exact close to that
        let tol_a = 16.0 * tr * (1.0 + 1.0 / (std::f64::consts::PI - angle));
        ensure!(a < ang + tol_a, "success, but the angle is {a:e}, allowed {ang:e}; error {e:?}, positions {:?}", rig.m.pos);
    }
    let moved = rig.mov.iter().any(|i| start[*i] != rig.m.pos[*i]);
    ctx.label_if(need > 0 && rig.mov.len() - ign.len() > need, "redundant");
    ctx.label_if(need > 0 && rig.mov.len() - ign.len() == need, "exactly determined");
    ctx.label_if(!ign.is_empty(), "joints ignored");
    ctx.label_if(need < 6, "some coordinates free");
    ctx.label_if(rig.mov.iter().any(|i| rig.m.lim[*i].map(|(lo, hi)| rig.m.pos[*i] == lo || rig.m.pos[*i] == hi).unwrap_or(false)), "joint ends at a limit");
    let (e0, _) = {
        let mut m = rig.m.clone();
        m.pos = start;
        pose_error(&iso(&target), &m.product(&rig.path))
    };
    let (d0, a0) = norms(&e0, &spec.mask);
    ctx.nontrivial = moved && (d0 >= dist || a0 >= ang);
    Ok(())
}

pub const CFG: ArmCfg = ArmCfg {
    limits: true,
    tight: true,
    mimics: false,
    max_len: 10,
    f32: 0.3,
};

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C12";
    const RULE: &'static str = "random arm (up to 10 nodes, any joint types, limits also next to the start) in a tree, mask, ignored joints, tolerances, multiplier, iterations, target (of near and far positions, shifted, arbitrary); after success the pose error is recomputed; non-trivial: success, moved, and the start was not within the tolerances";
    const ASSUME: &'static [&'static str] = &["start within the limits", "the comparison allows rounding errors of the length of the arm; rotations of nearly half a turn are not compared"];
    const QUICK: u64 = 700_000;
    const THOROUGH: u64 = 5_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        (arm(CFG), ik(1, false), prop::bool::weighted(0.15), prop::bool::weighted(0.1)).prop_map(|(arm, ik, plain, stock)| Case { arm, ik, plain, stock }).boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.arm.tree.f32, run, case, ctx)
    }
}
