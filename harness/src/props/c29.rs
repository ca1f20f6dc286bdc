//! Concurrent inverse kinematics of several arms of one robot
use super::arm::*;
use crate::num::*;
use crate::runner::*;
use crate::sched;
use crate::spec::*;
use crate::{by_scalar, ensure};
use k::nalgebra as na;
use k::InverseKinematicsSolver;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Task {
    /// where the arm is attached to the trunk
    pub at: u16,
    pub nodes: Vec<NodeSpec>,
    /// from the root, or from the first joint of the arm, or from the one below
    pub from: u8,
    pub ik: IkSpec,
    /// further targets, solved one after another
    pub more: Vec<Target>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub f32: bool,
    pub trunk: Vec<NodeSpec>,
    pub arms: Vec<Task>,
    /// all use the solver of the first arm
    pub shared: bool,
    pub warm: bool,
    /// what an onlooker reads: node or arm
    pub looks: Vec<(u8, u16)>,
    pub native: bool,
    pub plan: Vec<(u8, u8)>,
}

pub struct P;

struct Arm<T: Sc> {
    chain: k::SerialChain<T>,
    path: Vec<usize>,
    own: Vec<usize>,
    targets: Vec<na::Isometry3<T>>,
    c: k::Constraints,
    solver: usize,
}

struct Robot<T: Sc> {
    m: Model,
    b: Built<T>,
    arms: Vec<Arm<T>>,
}

fn robot<T: Sc>(case: &Case) -> Result<Robot<T>, String> {
    let mut t = TreeSpec {
        f32: case.f32,
        nodes: case.trunk.clone(),
    };
    for n in t.nodes.iter_mut() {
        n.parent = 0;
    }
    let trunk = t.nodes.len();
    let mut ranges = vec![];
    for a in &case.arms {
        let first = t.nodes.len();
        for (j, n) in a.nodes.iter().enumerate() {
            let mut n = n.clone();
            // below 40000 is the node before
            n.parent = if j == 0 {
                let at = pick(a.at, trunk) as u16;
                // numbers from 40000 which stand for that node
                let i = first as u16;
                (40000..40000 + i).find(|x| x % i == at).unwrap()
            } else {
                0
            };
            t.nodes.push(n);
        }
        ranges.push(first..t.nodes.len());
    }
    let m = Model::new::<T>(&t);
    let b = Built::<T>::new(&t, &m);
    let mut arms = vec![];
    for (a, r) in case.arms.iter().zip(ranges) {
        let end = r.end - 1;
        let chain = match a.from % 3 {
            0 => k::SerialChain::from_end(&b.nodes[end]),
            1 => k::SerialChain::from_end_to_root(&b.nodes[end], &b.nodes[r.start]),
            _ => k::SerialChain::from_end_to_root(&b.nodes[end], &b.nodes[(r.start + 1).min(end)]),
        };
        let path = b.indices(&chain)?;
        let mut c = k::Constraints::default();
        let mask = &a.ik.mask;
        (c.position_x, c.position_y, c.position_z) = (mask[0], mask[1], mask[2]);
        (c.rotation_x, c.rotation_y, c.rotation_z) = (mask[3], mask[4], mask[5]);
        // the joints of the trunk are shared, so they stay where they are
        let mov: Vec<usize> = path.iter().copied().filter(|i| m.movable(*i)).collect();
        let mut ignored: Vec<usize> = (0..mov.len()).filter(|k| mov[*k] < trunk).collect();
        for s in &a.ik.ignored {
            if let NameSel::Arm(x) = s {
                if !mov.is_empty() {
                    let x = pick(*x, mov.len());
                    if !ignored.contains(&x) {
                        ignored.push(x);
                    }
                }
            }
        }
        c.ignored_joint_names = ignored.iter().map(|k| m.name[mov[*k]].clone()).collect();
        let rig_target = |t: &Target| {
            let mut mm = m.clone();
            let now = m.product(&path);
            match t {
                Target::Reach(d) => {
                    for (k, i) in mov.iter().enumerate() {
                        if !d.is_empty() && !ignored.contains(&k) {
                            let v = m.pos[*i] + d[k % d.len()].0;
                            mm.pos[*i] = match m.lim[*i] {
                                Some((lo, hi)) => v.max(lo).min(hi),
                                None => v,
                            };
                        }
                    }
                    to_na::<T>(&mm.product(&path))
                }
                Target::Near(p) => to_na(&now.mul(&pose_iso::<T>(p))),
                Target::Far(p) => pose_na(p),
                Target::Weird(..) => to_na(&now),
            }
        };
        let targets = std::iter::once(&a.ik.target).chain(&a.more).map(rig_target).collect();
        let own = r.filter(|i| m.movable(*i)).collect();
        let solver = if case.shared { 0 } else { arms.len() };
        arms.push(Arm {
            chain,
            path,
            own,
            targets,
            c,
            solver,
        });
    }
    Ok(Robot { m, b, arms })
}

/// results and positions after each target
fn work<T: Sc>(a: &Arm<T>, solvers: &[k::JacobianIkSolver<T>]) -> Vec<(Result<(), String>, Vec<T>)> {
    a.targets
        .iter()
        .map(|t| {
            let r = solvers[a.solver].solve_with_constraints(&a.chain, t, &a.c).map_err(|e| format!("{e:?}"));
            (r, a.chain.joint_positions())
        })
        .collect()
}

/// joint, its position
type Seen = Vec<(usize, f64)>;

fn look<T: Sc>(r: &Robot<T>, looks: &[(u8, u16)]) -> Seen {
    let mut v = vec![];
    for (what, n) in looks {
        match what % 4 {
            0 => {
                let i = pick(*n, r.m.n);
                if let Some(p) = r.b.nodes[i].joint_position() {
                    v.push((i, p.d()));
                }
            }
            1 => {
                let a = &r.arms[pick(*n, r.arms.len())];
                let mov = a.path.iter().filter(|i| r.m.movable(**i));
                for (i, p) in mov.zip(a.chain.joint_positions()) {
                    v.push((*i, p.d()));
                }
            }
            2 => {
                let a = &r.arms[pick(*n, r.arms.len())];
                a.chain.end_transform();
            }
            _ => {
                let i = pick(*n, r.m.n);
                r.b.nodes[i].world_transform();
            }
        }
    }
    v
}

enum Out<T> {
    Work(Vec<(Result<(), String>, Vec<T>)>),
    Look(Seen),
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    if case.trunk.is_empty() || case.arms.is_empty() || case.arms.iter().any(|a| a.nodes.is_empty()) {
        return Ok(());
    }
    let solvers: Vec<k::JacobianIkSolver<T>> = case
        .arms
        .iter()
        .map(|a| {
            let mut s = solver::<T>(&a.ik);
            if let Some(o) = a.ik.objective.clone() {
                s.set_nullspace_function(Box::new(move |q| objective_value(&o, q)));
            }
            s
        })
        .collect();
    // one after another
    let alone = robot::<T>(case)?;
    let warm = |r: &Robot<T>| {
        if case.warm {
            k::Chain::from_root(r.b.nodes[0].clone()).update_transforms();
        }
    };
    warm(&alone);
    let want: Vec<_> = alone.arms.iter().map(|a| work(a, &solvers)).collect();
    // at the same time
    let r = robot::<T>(case)?;
    warm(&r);
    let before = snaps(&r.b.nodes);
    let mut bodies: Vec<Box<dyn FnOnce() -> Out<T> + Send + '_>> = vec![];
    for a in &r.arms {
        let s = &solvers;
        bodies.push(Box::new(move || Out::Work(work(a, s))));
    }
    if !case.looks.is_empty() {
        let (r, l) = (&r, &case.looks);
        bodies.push(Box::new(move || Out::Look(look(r, l))));
    }
    let out = sched::run(bodies, if case.native { None } else { Some(&case.plan) });
    if out.deadlock {
        return Err("deadlock: all threads wait for each other".into());
    }
    let mut seen = vec![];
    let mut got = vec![];
    for (t, o) in out.results.into_iter().enumerate() {
        match o {
            Ok(Out::Work(w)) => got.push(w),
            Ok(Out::Look(s)) => seen = s,
            Err(p) => return Err(format!("thread {t} panicked: {p}")),
        }
    }
    let (mut good, mut moved) = (0, 0);
    for (k, (g, w)) in got.iter().zip(&want).enumerate() {
        for (j, (g, w)) in g.iter().zip(w).enumerate() {
            let same = g.1.iter().zip(&w.1).all(|(a, b)| a.bits() == b.bits()) && g.1.len() == w.1.len();
            ensure!(
                g.0 == w.0 && same,
                "target {j} of arm {k}: alone the result is {:?} at {:?}, while others move it is {:?} at {:?}",
                w.0,
                w.1,
                g.0,
                g.1
            );
            good += g.0.is_ok() as usize;
        }
        let a = &r.arms[k];
        if a.own.iter().any(|i| r.b.nodes[*i].joint_position().map(|p| p.d()) != Some(r.m.pos[*i])) {
            moved += 1;
        }
    }
    let after = snaps(&r.b.nodes);
    let theirs: Vec<usize> = r.arms.iter().flat_map(|a| a.own.clone()).collect();
    for i in 0..r.m.n {
        let p = r.b.nodes[i].joint_position().map(|p| p.d());
        if !theirs.contains(&i) {
            ensure!(p == r.m.movable(i).then_some(r.m.pos[i]), "joint {i}, which is not of an arm, moved to {p:?}");
        }
        let (mut b, mut a) = (before[i].clone(), after[i].clone());
        (b.pos, a.pos) = (None, None);
        ensure!(a == b, "node {i} changed from {b:?} to {a:?}");
    }
    for (i, v) in &seen {
        ensure!(r.m.in_limits(*i, *v), "joint {i} is seen at {v}, which is out of the limits {:?}", r.m.lim[*i]);
        let other = !theirs.contains(i);
        ensure!(!other || *v == r.m.pos[*i], "joint {i}, which is not of an arm, is seen at {v} instead of {}", r.m.pos[*i]);
    }
    // what is left is in order
    let mut last = r.m.clone();
    for i in 0..last.n {
        if let Some(p) = r.b.nodes[i].joint_position() {
            last.pos[i] = p.d();
        }
    }
    let c = k::Chain::from_root(r.b.nodes[0].clone());
    let idx = r.b.indices(&c)?;
    for (i, t) in idx.iter().zip(&c.update_transforms()) {
        let path = last.path(*i);
        close(t, &last.product(&path), last.tol(&path)).map_err(|e| format!("transform of node {i} after the last update: {e}"))?;
    }
    ctx.label(T::NAME);
    ctx.label(if out.controlled {
        "chosen schedule"
    } else if case.native {
        "free running"
    } else {
        "schedule given up"
    });
    ctx.label_if(case.shared, "one solver for all");
    ctx.label_if(out.switches as usize >= got.len(), "preempted");
    ctx.label_if(good > 0, "success");
    ctx.label_if(moved >= 2, "two arms moved");
    ctx.nontrivial = moved >= 2 && (!out.controlled || out.switches as usize >= got.len());
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C29";
    const RULE: &'static str = "2-3 arms on a shared trunk, each solved for some targets by a thread of its own (one solver for all or one each), a further thread looking on, in a generated schedule with preemptions at any lock of a node; compared bit by bit with the same done one after another; non-trivial: two arms moved, with a preemption per thread";
    const TERMINATES: bool = true;
    const ASSUME: &'static [&'static str] = &[
        "schedules switch where a node is locked, which is the only sharing safe Rust code has there",
        "the arms have no common joint which may move (those of the trunk are ignored) and no mimic relations",
        "nobody else moves joints or updates transforms at the same time",
    ];
    const QUICK: u64 = 60_000;
    const THOROUGH: u64 = 600_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let c = ArmCfg {
            limits: true,
            tight: false,
            mimics: false,
            max_len: 6,
            f32: 0.3,
        };
        let ik = || {
            ik(0, false).prop_map(|mut s| {
                s.tries = s.tries.min(8);
                s
            })
        };
        let mask = prop_oneof![1 => Just(None), 7 => (0u8..6, 0u8..6).prop_map(Some)];
        let near = || prop_oneof![1 => Just(None), 3 => vec(f(-0.3..0.3f64), 1..8).prop_map(|d| Some(Target::Reach(d)))];
        let task = (any::<u16>(), vec(arm_node(c), 2..=6), 0u8..3, (ik(), near(), prop::bool::weighted(0.3)), mask, vec(target(0), 0..2)).prop_map(|(at, nodes, from, (mut ik, near, ignore), mask, more)| {
            ik.ignored.truncate(if ignore { 1 } else { 0 });
            if let Some(t) = near {
                ik.target = t;
                ik.dist = F(ik.dist.0.max(0.01));
                ik.angle = F(ik.angle.0.max(0.01));
            }
            // few coordinates, so that the joints suffice
            if let Some((a, b)) = mask {
                ik.mask = [false; 6];
                ik.mask[a as usize] = true;
                ik.mask[b as usize] = true;
            }
            Task { at, nodes, from, ik, more }
        });
        let gap = prop_oneof![3 => 0u8..6, 3 => 0u8..40, 2 => any::<u8>()];
        (
            (prop::bool::weighted(0.3), vec(arm_node(c), 1..4)),
            prop_oneof![3 => vec(task.clone(), 2..=2), 1 => vec(task, 3..=3)],
            (any::<bool>(), any::<bool>(), prop_oneof![1 => Just(vec![]), 1 => vec((any::<u8>(), any::<u16>()), 1..8)]),
            prop::bool::weighted(0.1),
            vec((gap, any::<u8>()), 0..24),
        )
            .prop_map(|((f32, trunk), arms, (shared, warm, looks), native, plan)| Case {
                f32,
                trunk,
                arms,
                shared,
                warm,
                looks,
                native,
                plan,
            })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.f32, run, case, ctx)
    }
}
