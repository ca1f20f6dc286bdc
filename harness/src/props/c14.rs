//! What IK may move
use super::arm::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use k::InverseKinematicsSolver;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub arm: ArmSpec,
    /// solved one after the other
    pub iks: Vec<IkSpec>,
    /// the other robot has been used before
    pub used: bool,
}

pub struct P;

/// per call: result, bits of all positions
type Out = (String, Vec<Option<u64>>);

fn go<T: Sc>(case: &Case, used: bool, ctx: &mut Option<&mut Ctx>) -> Result<Vec<Out>, String> {
    let mut rig = Rig::<T>::new(&case.arm)?;
    if used {
        k::Chain::from_root(rig.b.nodes[0].clone()).update_link_transforms();
        rig.arm.update_velocities();
    }
    let bits = |rig: &Rig<T>| rig.b.nodes.iter().map(|n| n.joint_position().map(|p| p.bits())).collect::<Vec<_>>();
    let mut outs = vec![];
    for (round, spec) in case.iks.iter().enumerate() {
        let c = rig.constraints(spec);
        let (ign, _) = rig.ignored(&c.ignored_joint_names);
        let target = rig.target(&spec.target, &ign);
        let mut s = solver::<T>(spec);
        let seen: Arc<Mutex<Vec<Vec<T>>>> = Default::default();
        if let Some(o) = spec.objective.clone() {
            let seen = seen.clone();
            s.set_nullspace_function(Box::new(move |q| {
                seen.lock().unwrap().push(q.to_vec());
                objective_value(&o, q)
            }));
        }
        let before = snaps(&rig.b.nodes);
        let b0 = bits(&rig);
        let r = s.solve_with_constraints(&rig.arm, &target, &c);
        let after = snaps(&rig.b.nodes);
        let b1 = bits(&rig);
        let e = |s: String| format!("call {round}, result {r:?}: {s}");
        // what changed
        let ignored: Vec<usize> = ign.iter().map(|k| rig.mov[*k]).collect();
        for i in 0..rig.m.n {
            if rig.mov.contains(&i) && !ignored.contains(&i) {
                let mut x = after[i].clone();
                x.pos = before[i].pos;
                ensure!(x == before[i], "{}", e(format!("more than the position of joint {i} changed: {:?} to {:?}", before[i], after[i])));
            } else {
                let why = if ignored.contains(&i) { "ignored" } else { "outside or fixed" };
                ensure!(after[i] == before[i], "{}", e(format!("{why} joint {i} changed from {:?} to {:?}, position {:?}", before[i], after[i], rig.b.nodes[i].joint_position())));
            }
        }
        // limits
        for (k, q) in seen.lock().unwrap().iter().enumerate() {
            ensure!(q.len() == rig.mov.len(), "{}", e(format!("the objective gets {} positions of {} joints", q.len(), rig.mov.len())));
            for (x, i) in q.iter().zip(&rig.mov) {
                ensure!(rig.m.in_limits(*i, x.d()) || rig.m.lim[*i].is_none(), "{}", e(format!("in iteration {k} joint {i} is at {:?}, out of its limits {:?}", x.d(), rig.m.lim[*i])));
            }
            for k in &ign {
                ensure!(q[*k].d() == rig.m.pos[rig.mov[*k]], "{}", e(format!("the objective sees ignored joint {k} at {:?} instead of {:?}", q[*k].d(), rig.m.pos[rig.mov[*k]])));
            }
        }
        if let Some(q) = seen.lock().unwrap().first() {
            for (x, i) in q.iter().zip(&rig.mov) {
                ensure!(x.d() == rig.m.pos[*i], "{}", e(format!("the objective first sees joint {i} at {:?} instead of {:?}", x.d(), rig.m.pos[*i])));
            }
        }
        for i in &rig.mov {
            let p = rig.b.nodes[*i].joint_position().map(|p| p.d()).ok_or("no position")?;
            ensure!(rig.m.in_limits(*i, p), "{}", e(format!("joint {i} is at {p:?}, out of its limits {:?}", rig.m.lim[*i])));
        }
        // the same again
        rig.reset();
        ensure!(bits(&rig) == b0, "{}", e("harness: reset".into()));
        let r2 = s.solve_with_constraints(&rig.arm, &target, &c);
        let (x, y) = (format!("{r:?}"), format!("{r2:?}"));
        ensure!(x == y && bits(&rig) == b1, "{}", e(format!("solved again from the same positions the result is {y} and the positions {:?} instead of {:?}", bits(&rig), b1)));
        for i in 0..rig.m.n {
            rig.m.pos[i] = rig.b.nodes[i].joint_position().map(|p| p.d()).unwrap_or(0.0);
        }
        if let Some(ctx) = ctx {
            let moved = b0 != b1;
            ctx.nontrivial |= moved && (!ign.is_empty() || rig.m.n > rig.mov.len());
            ctx.label_if(moved, "moved");
            ctx.label_if(moved && !ign.is_empty() && rig.mov.len() - ign.len() > is_rigid(&spec.mask), "ignored, redundant");
            ctx.label_if(moved && !ign.is_empty() && rig.mov.len() - ign.len() == is_rigid(&spec.mask), "ignored, exactly determined");
            ctx.label_if(moved && ign.len() > 1, "several ignored");
            ctx.label_if(seen.lock().unwrap().len() > 1, "objective in several iterations");
        }
        outs.push((x, b1));
    }
    Ok(outs)
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    ctx.label(T::NAME);
    let a = go::<T>(case, false, &mut Some(ctx))?;
    let b = go::<T>(case, case.used, &mut None)?;
    ensure!(a == b, "the results on an equal robot{} are {b:?} instead of {a:?}", if case.used { " which has been used before" } else { "" });
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C14";
    const RULE: &'static str = "as C12 with mimic relations, one to three problems in a row on one robot; all joints compared after each, positions which the objective sees compared with the limits, each problem solved again from the same positions and on an equal robot; non-trivial: a joint moved and another one was ignored, fixed or outside of the arm";
    const ASSUME: &'static [&'static str] = &["start within the limits"];
    const QUICK: u64 = 240_000;
    const THOROUGH: u64 = 2_500_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let cfg = ArmCfg {
            mimics: true,
            ..super::c12::CFG
        };
        (arm(cfg), vec(ik(0, false), 1..4), any::<bool>()).prop_map(|(arm, iks, used)| Case { arm, iks, used }).boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.arm.tree.f32, run, case, ctx)
    }
}
