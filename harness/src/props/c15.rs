//! Convergence of IK
use super::arm::*;
use crate::math::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use k::InverseKinematicsSolver;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub arm: ArmSpec,
    pub mask: [bool; 6],
    pub ignored: Vec<NameSel>,
    /// as many ignored joints as make it exactly determined
    pub exact: bool,
    pub delta: Vec<F>,
    pub mult: F,
    pub dist: F,
    pub angle: F,
    pub plain: bool,
}

pub struct P;

/// What the reference iteration does
struct Way {
    steps: usize,
    sigma: f64,
}

/// A plain damped Newton iteration. None: it does not reach the quarter of the tolerances, comes close to a
/// limit or to a singular configuration.
fn newton(rig_model: &Model, mov: &[usize], jac: &dyn Fn(&Model) -> Mat, pose: &dyn Fn(&Model) -> Iso, target: &Iso, mask: &[bool; 6], ign: &[usize], mult: f64, dist: f64, angle: f64) -> Option<Way> {
    let mut m = rig_model.clone();
    let use_: Vec<usize> = (0..mov.len()).filter(|k| !ign.contains(k)).map(|k| mov[k]).collect();
    let mut sigma = f64::INFINITY;
    for steps in 0..150 {
        let (e, a) = pose_error(target, &pose(&m));
        if a > 2.5 {
            return None;
        }
        let (d, w) = norms(&e, mask);
        if steps > 0 && d < dist / 4.0 && w < angle / 4.0 {
            return Some(Way { steps, sigma });
        }
        let j = jac(&m);
        let (s, p) = svd_pinv(&j, 1e-6);
        let least = *s.get(j.r - 1)?;
        sigma = sigma.min(least);
        if least < 0.03 {
            return None;
        }
        let err: Vec<f64> = (0..6).filter(|i| mask[*i]).map(|i| e[i]).collect();
        for (k, dq) in p.mulv(&err).iter().enumerate() {
            let i = use_[k];
            m.pos[i] += mult * dq;
            if let Some((lo, hi)) = m.lim[i] {
                let margin = 0.02;
                if m.pos[i] < lo + margin || m.pos[i] > hi - margin {
                    return None;
                }
            }
        }
    }
    None
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let rig = Rig::<T>::new(&case.arm)?;
    let mask = if case.plain { [true; 6] } else { case.mask };
    let need = is_rigid(&mask);
    let mut names = if case.plain { vec![] } else { rig.names(&case.ignored) };
    names.retain(|n| rig.mov.iter().any(|i| rig.m.name[*i] == *n));
    if case.exact && !case.plain {
        for i in &rig.mov {
            let (ign, _) = rig.ignored(&names);
            if rig.mov.len() - ign.len() > need && !names.contains(&rig.m.name[*i]) {
                names.push(rig.m.name[*i].clone());
            }
        }
    }
    let (ign, _) = rig.ignored(&names);
    if rig.mov.len() - ign.len() < need || need == 0 {
        return Ok(());
    }
    // the start must be in the inside as well
    for i in &rig.mov {
        if let Some((lo, hi)) = rig.m.lim[*i] {
            if rig.m.pos[*i] < lo + 0.02 || rig.m.pos[*i] > hi - 0.02 {
                return Ok(());
            }
        }
    }
    // pose of nearby positions
    let mut goal = rig.m.clone();
    for (k, i) in rig.mov.iter().enumerate() {
        if !ign.contains(&k) && !case.delta.is_empty() {
            goal.pos[*i] += case.delta[k % case.delta.len()].0;
            if let Some((lo, hi)) = rig.m.lim[*i] {
                if goal.pos[*i] < lo + 0.02 || goal.pos[*i] > hi - 0.02 {
                    return Ok(());
                }
            }
        }
    }
    let goal = goal.product(&rig.path);
    let (dist, angle, mult) = (T::f(case.dist.0).d(), T::f(case.angle.0).d(), T::f(case.mult.0).d());
    let reach: f64 = rig.path.iter().map(|i| norm(rig.m.origin[*i].t)).sum();
    let (_, tt) = rig.m.tol(&rig.path);
    if dist < 40.0 * tt || angle < 1e3 * T::EPS || reach > 50.0 {
        return Ok(());
    }
    let jac = |m: &Model| rig.jacobian(m, &mask, &ign);
    let pose = |m: &Model| m.product(&rig.path);
    let Some(way) = newton(&rig.m, &rig.mov, &jac, &pose, &goal, &mask, &ign, mult, dist, angle) else {
        return Ok(());
    };
    let tries = 2 * way.steps + 2;
    let s = k::JacobianIkSolver::new(T::f(case.dist.0), T::f(case.angle.0), T::f(case.mult.0), tries);
    let target = to_na::<T>(&goal);
    let mut c = k::Constraints::default();
    (c.position_x, c.position_y, c.position_z) = (mask[0], mask[1], mask[2]);
    (c.rotation_x, c.rotation_y, c.rotation_z) = (mask[3], mask[4], mask[5]);
    c.ignored_joint_names = names;
    let r = if case.plain { s.solve(&rig.arm, &target) } else { s.solve_with_constraints(&rig.arm, &target, &c) };
    ensure!(
        r.is_ok(),
        "not solved within {tries} iterations: {r:?}; a damped Newton iteration needs {} to reach a quarter of the tolerances, least singular value {:.3}, movable {:?}, ignored {ign:?}, target {target}",
        way.steps,
        way.sigma,
        rig.mov
    );
    ctx.label(T::NAME);
    ctx.label_if(rig.mov.len() - ign.len() == need, "exactly determined");
    ctx.label_if(rig.mov.len() - ign.len() > need, "redundant");
    ctx.label_if(!ign.is_empty(), "joints ignored");
    ctx.label_if(need == 6, "all coordinates");
    ctx.label_if(rig.mov.iter().any(|i| rig.m.kind[*i] == Kind::Lin), "linear joint");
    ctx.label_if(rig.path[0] > 0, "arm on a base");
    ctx.label_if(way.steps > 5, "more than 5 steps");
    ctx.nontrivial = way.steps > 1 || norms(&pose_error(&goal, &rig.m.product(&rig.path)).0, &mask).0 > dist;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C15";
    const RULE: &'static str = "random arms, masks, ignored joints, multipliers and tolerances, target is the pose of nearby positions; kept if a reference damped Newton iteration reaches a quarter of the tolerances without coming near limits or singularities (least singular value 0.03), and then solving must succeed within twice its iterations; non-trivial: kept, and the start is not within the tolerances";
    const ASSUME: &'static [&'static str] = &["the reference iteration is the usual one: least-norm solution of the linearised error, times the multiplier"];
    const QUICK: u64 = 600_000;
    const THOROUGH: u64 = 10_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let cfg = ArmCfg {
            tight: false,
            ..super::c12::CFG
        };
        let mult = prop_oneof![3 => Just(F(0.5)), 3 => Just(F(1.0)), 3 => f(0.1..1.0f64)];
        let tol = || prop_oneof![3 => Just(F(1e-3)), 1 => f(1e-4..0.02f64)];
        let delta = prop_oneof![2 => vec(f(-0.2..0.2f64), 1..8), 1 => vec(f(-0.03..0.03f64), 1..8), 1 => vec(f(-0.5..0.5f64), 1..8)];
        (arm(cfg), mask(), ignored(false), prop::bool::weighted(0.3), delta, mult, tol(), tol(), prop::bool::weighted(0.2))
            .prop_map(|(arm, mask, ignored, exact, delta, mult, dist, angle, plain)| Case {
                arm,
                mask,
                ignored,
                exact,
                delta,
                mult,
                dist,
                angle,
                plain,
            })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.arm.tree.f32, run, case, ctx)
    }
}
