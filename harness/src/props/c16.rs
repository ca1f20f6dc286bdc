//! Secondary objectives
use super::arm::*;
use crate::math::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::f;
use crate::{by_scalar, ensure};
use k::InverseKinematicsSolver;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Set {
    Own(Objective),
    /// by create_reference_positions_nullspace_function
    Provided(Vec<F>, Vec<F>),
    Clear,
    Keep,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub arm: ArmSpec,
    pub mask: [bool; 6],
    pub ignored: Vec<NameSel>,
    pub target: Target,
    pub mult: F,
    pub rounds: Vec<Set>,
    pub formula: Vec<(F, F, F)>,
}

pub struct P;

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    // the formula of the provided objective
    let get = |k: usize| case.formula.iter().map(|x| T::f([x.0 .0, x.1 .0, x.2 .0][k])).collect::<Vec<T>>();
    let (q, r, w) = (get(0), get(1), get(2));
    let v = k::create_reference_positions_nullspace_function(r.clone(), w.clone())(&q);
    ensure!(v.len() == q.len(), "the objective returns {} values for {} joints", v.len(), q.len());
    for i in 0..q.len() {
        let want = w[i].d() * (q[i].d() - r[i].d());
        let tol = 4.0 * T::EPS * w[i].d().abs() * (q[i].d().abs() + r[i].d().abs());
        ensure!((v[i].d() - want).abs() <= tol, "the objective returns {:?} instead of {want:?} for position {:?}, reference {:?}, weight {:?}", v[i], q[i], r[i], w[i]);
    }

    let rig = Rig::<T>::new(&case.arm)?;
    let names = rig.names(&case.ignored);
    let (ign, _) = rig.ignored(&names);
    let need = is_rigid(&case.mask);
    let n = rig.mov.len();
    if need == 0 || n < ign.len() + need {
        return Ok(());
    }
    let redundant = n - ign.len() > need;
    let target = rig.target(&case.target, &ign);
    let (e, angle) = pose_error(&iso_of(&target), &rig.m.product(&rig.path));
    // well conditioned, and no half turn
    let j = rig.jacobian(&rig.m, &case.mask, &ign);
    let (s, pinv) = svd_pinv(&j, 1e-6);
    let least = s[j.r - 1];
    let lim = if T::EPS < 1e-10 { 0.01 } else { 0.05 };
    if least < lim || angle > 2.8 || s[0] > 100.0 {
        return Ok(());
    }
    let err: Vec<f64> = (0..6).filter(|i| case.mask[*i]).map(|i| e[i]).collect();
    let task = pinv.mulv(&err);
    let pj = pinv.mul(&j);
    let use_: Vec<usize> = (0..n).filter(|k| !ign.contains(k)).collect();
    // any pose is accepted, so one iteration is made
    let big = T::f(1e6);
    let mult = T::f(case.mult.0);
    let mut solver = k::JacobianIkSolver::new(big, big, mult, 1);
    let mut c = k::Constraints::default();
    (c.position_x, c.position_y, c.position_z) = (case.mask[0], case.mask[1], case.mask[2]);
    (c.rotation_x, c.rotation_y, c.rotation_z) = (case.mask[3], case.mask[4], case.mask[5]);
    c.ignored_joint_names = names;
    let start: Vec<T> = rig.mov.iter().map(|i| T::f(rig.m.pos[*i])).collect();
    // objective in force, as a function known to the oracle
    let mut now: Option<Objective> = None;
    let mut own = false;
    let seen: Arc<Mutex<Vec<Vec<T>>>> = Default::default();
    let mut cleared = false;
    for (round, set) in case.rounds.iter().enumerate() {
        match set {
            Set::Own(o) => {
                let (f, seen) = (o.clone(), seen.clone());
                solver.set_nullspace_function(Box::new(move |q| {
                    seen.lock().unwrap().push(q.to_vec());
                    objective_value(&f, q)
                }));
                now = Some(o.clone());
                own = true;
            }
            Set::Provided(r, w) => {
                let full = |v: &Vec<F>| (0..n).map(|i| T::f(v[i % v.len()].0)).collect::<Vec<T>>();
                solver.set_nullspace_function(Box::new(k::create_reference_positions_nullspace_function(full(r), full(w))));
                now = Some(Objective::Reference(r.clone(), w.clone()));
                own = false;
            }
            Set::Clear => {
                solver.clear_nullspace_function();
                cleared |= now.is_some();
                now = None;
                own = false;
            }
            Set::Keep => {}
        }
        rig.reset();
        seen.lock().unwrap().clear();
        let r = solver.solve_with_constraints(&rig.arm, &target, &c);
        ensure!(r.is_ok(), "round {round}: any pose is accepted, but: {r:?}");
        let calls = seen.lock().unwrap().clone();
        if own && redundant {
            ensure!(calls.len() == 1, "round {round}: the objective is evaluated {} times in one iteration", calls.len());
            let same = calls[0].len() == n && calls[0].iter().zip(&start).all(|(a, b)| a.bits() == b.bits());
            ensure!(same, "round {round}: the objective gets {:?} instead of {start:?}", calls[0]);
        } else if !own {
            ensure!(calls.is_empty(), "round {round}: a replaced objective is evaluated");
        }
        let mut step = task.clone();
        let mut null = 0.0f64;
        let mut size = step.iter().map(|x| x.abs()).fold(0.0, f64::max);
        if let (Some(o), true) = (&now, redundant) {
            let z: Vec<f64> = objective_value(o, &start).iter().map(|x| x.d()).collect();
            let zu: Vec<f64> = use_.iter().map(|k| z[*k]).collect();
            let proj = pj.mulv(&zu);
            for k in 0..zu.len() {
                step[k] += zu[k] - proj[k];
                null = null.max((zu[k] - proj[k]).abs());
                size = size.max(zu[k].abs());
            }
        }
        let cond = (1.0 + s[0]) / least;
        // the decomposition of the library is accurate to 1e-8
        let k = if T::EPS < 1e-10 { 1e8 } else { 500.0 };
        let tol = k * T::EPS * cond * cond * (1.0 + size) + 8.0 * T::EPS * start.iter().map(|x| x.d().abs()).fold(1.0, f64::max);
        for (k, i) in rig.mov.iter().enumerate() {
            let got = rig.b.nodes[*i].joint_position().map(|p| p.d()).ok_or("no position")?;
            let want = match use_.iter().position(|u| *u == k) {
                Some(u) => start[k].d() + mult.d() * step[u],
                None => start[k].d(),
            };
            ensure!((got - want).abs() <= tol, "round {round}: joint {i} is at {got:?} instead of {want:?} (allowed error {tol:e}) from {:?}, redundant {redundant}, objective {now:?}, least singular value {least:.4}, ignored {ign:?}", start[k]);
        }
        ctx.label_if(now.is_some() && redundant && !ign.is_empty(), "objective, joints ignored");
        ctx.label_if(now.is_some() && !redundant, "objective, not redundant");
        ctx.label_if(now.is_none() && cleared, "after clear");
        ctx.nontrivial |= null > 1e3 * tol;
    }
    ctx.label(T::NAME);
    ctx.label_if(redundant, "redundant");
    Ok(())
}

fn iso_of<T: Sc>(i: &k::nalgebra::Isometry3<T>) -> Iso {
    crate::spec::iso(i)
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C16";
    const RULE: &'static str = "random arms without limits, masks, ignored joints, targets, multipliers; one solver with objectives set, replaced and cleared between one-iteration solves; the step compared with own pseudo inverse, and the formula of the provided objective; non-trivial: the projected objective is not zero";
    const ASSUME: &'static [&'static str] = &["least singular value above 0.01 (f32: 0.05), no joint limits", "comparison up to rounding errors amplified by the condition"];
    const QUICK: u64 = 600_000;
    const THOROUGH: u64 = 8_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let cfg = ArmCfg {
            limits: false,
            ..super::c12::CFG
        };
        let c = || vec(f(-1.0..1.0f64), 1..12);
        let set = prop_oneof![
            4 => objective().prop_map(Set::Own),
            3 => (c(), c()).prop_map(|(a, b)| Set::Provided(a, b)),
            2 => Just(Set::Clear),
            1 => Just(Set::Keep),
        ];
        let mult = prop_oneof![2 => Just(F(0.5)), 2 => Just(F(1.0)), 6 => f(0.05..1.0f64), 1 => f(1.0..3.0f64), 1 => f(-1.0..0.05f64)];
        let x = || f(-5.0..5.0f64);
        (arm(cfg), mask(), ignored(false), target(0), mult, vec(set, 1..5), vec((x(), x(), x()), 0..8))
            .prop_map(|(arm, mask, ignored, target, mult, rounds, formula)| Case {
                arm,
                mask,
                ignored,
                target,
                mult,
                rounds,
                formula,
            })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.arm.tree.f32, run, case, ctx)
    }
}
