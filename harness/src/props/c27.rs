//! IK iterations
use super::arm::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use k::InverseKinematicsSolver;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub arm: ArmSpec,
    pub ik: IkSpec,
    /// added to the iterations which are needed
    pub more: usize,
    /// factors of the tolerances
    pub wider: (F, F),
}

pub struct P;

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let rig = Rig::<T>::new(&case.arm)?;
    let spec = &case.ik;
    let c = rig.constraints(spec);
    let (ign, bad) = rig.ignored(&c.ignored_joint_names);
    let need = is_rigid(&spec.mask);
    if !bad.is_empty() || need == 0 || rig.mov.len() < ign.len() + need {
        return Ok(());
    }
    let target = rig.target(&spec.target, &ign);
    let bits = |v: &[T]| v.iter().map(|x| x.bits()).collect::<Vec<_>>();
    let start = rig.arm.joint_positions();
    let solve = |tries: usize, wider: (f64, f64)| {
        rig.reset();
        let mut s = k::JacobianIkSolver::new(T::f(spec.dist.0 * wider.0), T::f(spec.angle.0 * wider.1), T::f(spec.mult.0), tries);
        if let Some(o) = spec.objective.clone() {
            s.set_nullspace_function(Box::new(move |q| objective_value(&o, q)));
        }
        let r = s.solve_with_constraints(&rig.arm, &target, &c);
        (r, rig.arm.joint_positions())
    };
    // the iterations one by one, and the distances after each of them
    rig.reset();
    let (way, end) = walk(&rig, spec, &target, &c, spec.tries + 2);
    let (dist, ang) = (T::f(spec.dist.0).d(), T::f(spec.angle.0).d());
    let mut m = rig.m.clone();
    let scale: f64 = (0..3).map(|i| target.translation.vector[i].d().abs()).sum();
    // surely within the tolerances, possibly within
    let mut within = vec![];
    for q in &way {
        for (x, i) in q.iter().zip(&rig.mov) {
            m.pos[*i] = x.d();
        }
        let (e, angle) = pose_error(&iso(&target), &m.product(&rig.path));
        let (d, a) = norms(&e, &spec.mask);
        let (tr, tt) = m.tol(&rig.path);
        let tol_d = 4.0 * tt + 8.0 * T::EPS * scale;
        let tol_a = if angle < 3.1 { 16.0 * tr * (1.0 + 1.0 / (std::f64::consts::PI - angle)) } else { f64::INFINITY };
        within.push((d < dist - tol_d && a < ang - tol_a, d < dist + tol_d && a < ang + tol_a));
    }
    let (r, q) = solve(spec.tries, (1.0, 1.0));
    ctx.label(T::NAME);
    match &r {
        Ok(()) => {
            let at = way.iter().position(|w| bits(w) == bits(&q)).filter(|i| *i < spec.tries);
            let Some(at) = at else {
                if way.len() < spec.tries && matches!(end, Some(k::Error::NotConvergedError { .. })) {
                    // it came back from farther than walking accepts
                    ctx.label("too far to follow");
                    return Ok(());
                }
                return Err(format!("success at {q:?}, which is not reached by {} single iterations: {way:?}", spec.tries));
            };
            if let Some(i) = (0..at).find(|i| within[*i].0) {
                return Err(format!("success after {} iterations at {q:?}, but it is within the tolerances after {}, at {:?}", at + 1, i + 1, way[i]));
            }
            ensure!(within[at].1, "success after {} iterations at {q:?}, which is not within the tolerances", at + 1);
            let n = at + 1;
            for tries in [n, n + case.more, spec.tries + case.more] {
                let (r, p) = solve(tries, (1.0, 1.0));
                let ok = r.is_ok() && bits(&p) == bits(&q);
                ensure!(ok, "{} iterations lead to {q:?}, but with a limit of {tries} the result is {r:?} at {p:?}", n);
            }
            if (0..at).all(|i| !within[i].1) {
                let (r, p) = solve(n - 1, (1.0, 1.0));
                ensure!(r.is_err(), "{n} iterations are needed, but with a limit of {} it succeeds at {p:?}", n - 1);
                ensure!(bits(&p) == bits(&start), "the joints moved although it failed with a limit of {} iterations", n - 1);
            }
            let (w, v) = (case.wider.0 .0, case.wider.1 .0);
            let (r, p) = solve(n, (w, v));
            ensure!(r.is_ok(), "{n} iterations suffice, but not for tolerances larger by the factors {w} and {v}: {r:?}");
            ensure!(way[..n].iter().any(|x| bits(x) == bits(&p)), "tolerances larger by the factors {w} and {v}: success at {p:?}, which is not reached by {n} single iterations {way:?}");
            ctx.label("success");
            ctx.label_if(n > 1, "several iterations");
            ctx.label_if(n == spec.tries, "with the last iteration");
            ctx.nontrivial = n > 1;
        }
        Err(e) => {
            let n = way.len().min(spec.tries);
            if let Some(i) = (0..n).find(|i| within[*i].0) {
                return Err(format!("{e:?}, but it is within the tolerances after {} single iterations, at {:?}", i + 1, way[i]));
            }
            match e {
                // the pose may also become farther than walking accepts
                k::Error::InverseMatrixError => ensure!(way.len() < spec.tries && end.is_some(), "{e:?}, but {} single iterations end with {end:?}", way.len()),
                k::Error::NotConvergedError { .. } => {
                    let singular = way.len() < spec.tries && matches!(end, Some(k::Error::InverseMatrixError));
                    ensure!(!singular, "{e:?}, but {} single iterations end with {end:?}", way.len())
                }
                _ => return Err(format!("the problem is valid, but: {e:?}")),
            }
            ctx.label("failure");
            ctx.nontrivial = n > 1;
        }
    }
    ctx.label_if(spec.objective.is_some() && rig.mov.len() - ign.len() > need, "with objective");
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C27";
    const RULE: &'static str = "valid problems as of C12; the same problem solved with the iteration limit, iteration by iteration (tolerances of 1e30), with the smallest sufficient limit, one less, more, and wider tolerances; bitwise comparison of positions; non-trivial: at least two iterations";
    const TERMINATES: bool = true;
    const ASSUME: &'static [&'static str] = &["start within the limits", "poses within rounding errors of the tolerances count as either"];
    const QUICK: u64 = 400_000;
    const THOROUGH: u64 = 4_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let w = || prop_oneof![1 => Just(F(1.0)), 2 => f(1.0..100.0f64)];
        (arm(super::c12::CFG), ik(0, false), prop_oneof![2 => 1usize..4, 1 => 4usize..60], (w(), w())).prop_map(|(arm, ik, more, wider)| Case { arm, ik, more, wider }).boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.arm.tree.f32, run, case, ctx)
    }
}
