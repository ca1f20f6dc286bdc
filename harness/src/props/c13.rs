//! IK failure
use super::arm::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use k::InverseKinematicsSolver;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub arm: ArmSpec,
    pub ik: IkSpec,
    /// positions set without checks before
    pub start: Vec<(u16, ValSel)>,
}

pub struct P;

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut rig = Rig::<T>::new(&case.arm)?;
    let mut outside = false;
    for (n, v) in &case.start {
        let i = pick(*n, rig.m.n);
        if rig.m.movable(i) {
            let v: T = v.finite(rig.m.lim[i]);
            rig.b.nodes[i].set_joint_position_unchecked(v);
            rig.m.pos[i] = v.d();
            outside |= !rig.m.in_limits(i, v.d());
        }
    }
    let spec = &case.ik;
    let c = rig.constraints(spec);
    let (ign, bad) = rig.ignored(&c.ignored_joint_names);
    let target = rig.target(&spec.target, &ign);
    let mut s = solver::<T>(spec);
    let calls = Arc::new(AtomicUsize::new(0));
    if let Some(o) = spec.objective.clone() {
        let calls = calls.clone();
        s.set_nullspace_function(Box::new(move |q| {
            calls.fetch_add(1, Ordering::Relaxed);
            objective_value(&o, q)
        }));
    }
    let jac = k::jacobian(&rig.arm);
    let before = snaps(&rig.b.nodes);
    let r = s.solve_with_constraints(&rig.arm, &target, &c);
    let after = snaps(&rig.b.nodes);
    ctx.label(T::NAME);
    let need = is_rigid(&spec.mask);
    let usable = rig.mov.len() - ign.len();
    let n = calls.load(Ordering::Relaxed);
    ensure!(n <= spec.tries, "the objective is evaluated {n} times in {} iterations", spec.tries);
    let few = usable < need;
    let what = || format!("{usable} usable joints, {need} constraints, ignored {:?}", c.ignored_joint_names);
    if !bad.is_empty() || few {
        ensure!(n == 0, "the objective is evaluated although the problem is not valid ({})", what());
        match &r {
            Err(k::Error::InvalidJointNameError { joint_name }) if bad.contains(joint_name) => ctx.label("invalid name"),
            Err(k::Error::PreconditionError { dof, necessary_dof }) if few && *dof == usable && *necessary_dof == need => ctx.label("too few joints"),
            _ => return Err(format!("{}: the result is {r:?}", what())),
        }
    }
    if bad.is_empty() && need > 0 && usable == need && spec.tries > 0 && jac.iter().all(|x| x.d().is_finite()) {
        // no usable joint has an effect on some coordinate, or one has no effect at all
        let rows: Vec<usize> = (0..6).filter(|i| spec.mask[*i]).collect();
        let cols: Vec<usize> = (0..rig.mov.len()).filter(|i| !ign.contains(i)).collect();
        let none = |r: usize, c: usize| jac[(r, c)].d() == 0.0;
        if rows.iter().any(|r| cols.iter().all(|c| none(*r, *c))) || cols.iter().any(|c| rows.iter().all(|r| none(*r, *c))) {
            ctx.label("no effect");
            ensure!(matches!(r, Err(k::Error::InverseMatrixError)), "the Jacobian has no inverse, but the result is {r:?}");
        }
    }
    let Err(e) = r else { return Ok(()) };
    for (i, (x, y)) in before.iter().zip(&after).enumerate() {
        ensure!(x == y, "failed with {e:?}, but joint {i} changed from {x:?} to {y:?}, position {:?}", rig.b.nodes[i].joint_position());
    }
    if bad.is_empty() && !few {
        let (dist, ang) = (T::f(spec.dist.0).d(), T::f(spec.angle.0).d());
        match &e {
            k::Error::NotConvergedError {
                num_tried,
                position_diff,
                rotation_diff,
            } => {
                ctx.label("not converged");
                if spec.tries > 0 {
                    ensure!(*num_tried == spec.tries, "{num_tried} iterations are reported, the limit is {}", spec.tries);
                    let (d, a) = (position_diff.norm(), rotation_diff.norm());
                    ensure!(!(d < dist * (1.0 - 1e-5) && a < ang * (1.0 - 1e-5)), "not converged, but the reported residual {d:e}, {a:e} is within the tolerances {dist:e}, {ang:e}");
                    for i in 0..3 {
                        ensure!(spec.mask[i] || position_diff[i] == 0.0, "the coordinate {i} is not constrained but has the residual {position_diff:?}");
                        ensure!(spec.mask[i + 3] || rotation_diff[i] == 0.0, "the coordinate {} is not constrained but has the residual {rotation_diff:?}", i + 3);
                    }
                    // the same iterations one by one
                    let (way, end) = walk(&rig, spec, &target, &c, spec.tries);
                    if let (Some(q), None) = (way.last(), &end) {
                        for (x, i) in q.iter().zip(&rig.mov) {
                            rig.m.pos[*i] = x.d();
                        }
                        let (err, angle) = pose_error(&iso(&target), &rig.m.product(&rig.path));
                        let (tr, tt) = rig.m.tol(&rig.path);
                        let scale: f64 = (0..3).map(|i| target.translation.vector[i].d().abs()).sum();
                        let sane = err[..3].iter().all(|x| x.abs() < 1e6) && !matches!(spec.target, Target::Weird(..));
                        let tol_d = 4.0 * tt + 8.0 * T::EPS * scale;
                        for i in 0..3 {
                            let ok = !spec.mask[i] || !sane || (position_diff[i] - err[i]).abs() <= tol_d;
                            ensure!(ok, "the residual {position_diff:?} is reported, after {} single iterations it is {:?}", spec.tries, &err[..3]);
                        }
                        if angle < 3.1 && sane {
                            let tol_a = 16.0 * tr * (1.0 + 1.0 / (std::f64::consts::PI - angle));
                            for i in 0..3 {
                                let ok = !spec.mask[i + 3] || (rotation_diff[i] - err[i + 3]).abs() <= tol_a;
                                ensure!(ok, "the residual {rotation_diff:?} is reported, after {} single iterations it is {:?}", spec.tries, &err[3..]);
                            }
                        }
                        ctx.label_if(sane, "residual recomputed");
                    }
                }
            }
            k::Error::InverseMatrixError => {
                ctx.label("singular");
                ensure!(spec.tries > 0, "no iteration, but {e:?}");
                let (way, end) = walk(&rig, spec, &target, &c, spec.tries);
                ensure!(end.is_some(), "{e:?}, but {} single iterations succeed", way.len());
                for i in &rig.mov {
                    rig.m.pos[*i] = rig.b.nodes[*i].joint_position().map(|p| p.d()).ok_or("no position")?;
                }
                let j = rig.jacobian(&rig.m, &spec.mask, &ign);
                let (s, _) = crate::math::svd_pinv(&j, 1e-9);
                let lim = if T::EPS < 1e-10 { 1e-6 } else { 1e-2 };
                let least = s[need - 1];
                // it may also have ended because the pose is too far away, and huge positions leave no digits
                let singular = matches!(end, Some(k::Error::InverseMatrixError)) && rig.mov.iter().all(|i| rig.m.pos[*i].abs() < 1e3);
                ensure!(!(singular && least > lim * s[0].max(1.0)), "{e:?} after {} iterations, but the singular values are {s:?} there", way.len());
            }
            _ => return Err(format!("{}: the error is {e:?}", what())),
        }
        // the text must be printable as well
        ensure!(!e.to_string().is_empty(), "no message");
    }
    ctx.label_if(outside, "start outside of the limits");
    ctx.label_if(matches!(spec.target, Target::Weird(..)), "target not finite or huge");
    ctx.label_if(n > 0, "with objective");
    // something moved on the way, or the problem is refused
    ctx.nontrivial = spec.tries > 0 && need > 0;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C13";
    const RULE: &'static str = "as C12, also with starts outside of the limits, targets with NaN, infinite or huge numbers, ignored names that are repeated, unknown, of fixed or outside joints, too many; every failure is compared with the snapshot and its contents with the problem; non-trivial: failure with at least one iteration allowed and one coordinate constrained";
    const TERMINATES: bool = true;
    const ASSUME: &'static [&'static str] = &["if a name is invalid and joints are too few, either may be reported", "start positions are finite"];
    const QUICK: u64 = 500_000;
    const THOROUGH: u64 = 5_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let cfg = ArmCfg {
            mimics: true,
            ..super::c12::CFG
        };
        let start = prop_oneof![3 => Just(vec![]), 2 => vec((any::<u16>(), val_sel(false, true)), 1..4)];
        (arm(cfg), ik(3, true), start).prop_map(|(arm, ik, start)| Case { arm, ik, start }).boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.arm.tree.f32, run, case, ctx)
    }
}
