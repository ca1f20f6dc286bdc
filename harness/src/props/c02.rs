//! Checked position setting
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// through the node
    Node(u16, ValSel),
    /// through a joint which is not in a tree
    Joint(u16, ValSel),
    /// through a chain of one joint
    Chain(u16, ValSel),
    Update,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub ops: Vec<Op>,
}

pub struct P;

fn snap_joint<T: Sc>(j: &k::Joint<T>) -> (Snap, Option<[u64; 7]>, Option<String>) {
    let n = k::Node::new(j.clone());
    (snap(&n), j.world_transform().map(|t| iso_bits(&t)), j.world_velocity().map(|v| format!("{v:?}")))
}

/// the error has to name the joint and the reason
fn judge<T: Sc>(r: &Result<(), k::Error>, m: &Model, i: usize, v: T) -> Result<bool, String> {
    let ok = m.movable(i) && m.in_limits(i, v.d());
    let what = format!("setting {} ({:?}, limits {:?}) to {:?}", m.name[i], m.kind[i], m.lim[i], v.d());
    match r {
        Ok(()) => {
            ensure!(ok, "{what} is accepted");
            Ok(true)
        }
        Err(e) => {
            ensure!(!ok, "{what} is rejected: {e}");
            if !m.movable(i) {
                match e {
                    k::Error::SetToFixedError { joint_name } if *joint_name == m.name[i] => {}
                    _ => return Err(format!("{what}: wrong error {e:?}")),
                }
            } else {
                let (lo, hi) = m.lim[i].unwrap();
                match e {
                    k::Error::OutOfLimitError {
                        joint_name,
                        position,
                        max_limit,
                        min_limit,
                    } if *joint_name == m.name[i] && same(*position, v.d()) && *max_limit == hi && *min_limit == lo => {}
                    _ => return Err(format!("{what}: wrong error {e:?}")),
                }
            }
            Ok(false)
        }
    }
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = Model::new::<T>(&case.tree);
    let b = Built::<T>::new(&case.tree, &m);
    let mut joints: Vec<k::Joint<T>> = (0..m.n).map(|i| build_joint::<T>(&case.tree.nodes[i], &m, i)).collect();
    let mut jpos = m.pos.clone();
    let tree = k::Chain::from_root(b.nodes[0].clone());
    let (mut acc, mut rej) = (0, 0);
    let all = |b: &Built<T>| -> Vec<_> {
        b.nodes
            .iter()
            .map(|n| (snap(n), n.world_transform().map(|t| iso_bits(&t)), n.world_velocity().map(|v| format!("{v:?}"))))
            .collect()
    };
    for (step, op) in case.ops.iter().enumerate() {
        let r = (|| -> Res {
            match op {
                Op::Update => {
                    tree.update_velocities();
                }
                Op::Joint(n, v) => {
                    let i = pick(*n, m.n);
                    let v: T = v.get(m.lim[i]);
                    let before = snap_joint(&joints[i]);
                    let r = joints[i].set_joint_position(v);
                    if judge(&r, &m, i, v)? {
                        jpos[i] = v.d();
                        acc += 1;
                        let mut s = before.0;
                        s.pos = snap_joint(&joints[i]).0.pos;
                        ensure!(snap_joint(&joints[i]).0 == s, "setting the position of joint {} changed something else", m.name[i]);
                    } else {
                        rej += 1;
                        ensure!(snap_joint(&joints[i]) == before, "a rejected setting changed joint {}: {:?} to {:?}", m.name[i], before, snap_joint(&joints[i]));
                    }
                    if m.movable(i) {
                        let p = joints[i].joint_position().map(|p| p.d());
                        ensure!(p.map(|p| same(p, jpos[i])).unwrap_or(false), "joint {} reads {p:?} instead of {}", m.name[i], jpos[i]);
                    } else {
                        ensure!(joints[i].joint_position().is_none(), "fixed joint {} has a position", m.name[i]);
                    }
                }
                Op::Node(n, v) | Op::Chain(n, v) => {
                    let i = pick(*n, m.n);
                    let v: T = v.get(m.lim[i]);
                    let before = all(&b);
                    let r = if matches!(op, Op::Chain(..)) && m.movable(i) {
                        k::Chain::from_end_to_root(&b.nodes[i], &b.nodes[i]).set_joint_positions(&[v])
                    } else {
                        b.nodes[i].set_joint_position(v)
                    };
                    let mut want = before.clone();
                    if judge(&r, &m, i, v)? {
                        acc += 1;
                        m.pos[i] = v.d();
                        let p = b.nodes[i].joint_position().map(|p| p.d());
                        ensure!(p.map(|p| same(p, v.d())).unwrap_or(false), "{} reads {p:?} instead of {:?}", m.name[i], v.d());
                        // its own position and transform are new
                        want[i] = all(&b)[i].clone();
                        want[i].0 = Snap {
                            pos: want[i].0.pos,
                            ..before[i].0.clone()
                        };
                    } else {
                        rej += 1;
                    }
                    let now = all(&b);
                    // transforms of other joints may become absent, they were based on the old position
                    for j in 0..m.n {
                        if r.is_ok() && now[j].1.is_none() {
                            want[j].1 = None;
                        }
                        if r.is_ok() && now[j].2.is_none() {
                            want[j].2 = None;
                        }
                        ensure!(now[j] == want[j], "setting {} ({}) changed node {}: {:?} to {:?}", m.name[i], if r.is_ok() { "accepted" } else { "rejected" }, m.name[j], before[j], now[j]);
                    }
                }
            }
            for i in 0..m.n {
                let p = b.nodes[i].joint_position().map(|p| p.d());
                match (m.movable(i), p) {
                    (true, Some(p)) => ensure!(same(p, m.pos[i]), "{} reads {p} instead of {}", m.name[i], m.pos[i]),
                    (false, None) => {}
                    _ => return Err(format!("{} reads {p:?}", m.name[i])),
                }
            }
            Ok(())
        })();
        r.map_err(|e| format!("step {step}: {e}"))?;
    }
    ctx.label(T::NAME);
    ctx.label_if(acc > 0, "accepted");
    ctx.label_if(rej > 0, "rejected");
    ctx.label_if(m.kind.contains(&Kind::Fixed), "fixed joint");
    ctx.label_if(m.lim.iter().flatten().any(|l| l.0 == l.1), "zero width limits");
    ctx.nontrivial = acc > 0 && rej > 0;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C02";
    const RULE: &'static str = "tree of up to 5 joints with any limits, history of settings at, next to, inside and outside the limits, infinite and NaN, with updates in between; non-trivial: a value is accepted and one is rejected";
    const ASSUME: &'static [&'static str] = &["minimum limit not above maximum limit, limits are not NaN"];
    const QUICK: u64 = 700_000;
    const THOROUGH: u64 = 10_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let n = any::<u16>;
        let op = prop_oneof![
            4 => (n(), val_sel(true, true)).prop_map(|(a, b)| Op::Node(a, b)),
            3 => (n(), val_sel(true, true)).prop_map(|(a, b)| Op::Joint(a, b)),
            2 => (n(), val_sel(true, true)).prop_map(|(a, b)| Op::Chain(a, b)),
            2 => Just(Op::Update),
        ];
        let c = Cfg {
            max: 5,
            any_names: true,
            links: false,
            ..Cfg::BASE
        };
        (tree(c), vec(op, 1..12)).prop_map(|(tree, ops)| Case { tree, ops }).boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
