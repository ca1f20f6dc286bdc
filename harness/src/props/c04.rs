//! Position vectors of chains
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub chain: ChainSel,
    /// values, and a shift of the length
    pub vecs: Vec<(Vec<ValSel>, i8)>,
}

pub struct P;

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = Model::new::<T>(&case.tree);
    let b = Built::<T>::new(&case.tree, &m);
    let ch = case.chain.chain(&m, &b);
    let nodes = b.indices(&ch)?;
    let idx: Vec<usize> = nodes.iter().copied().filter(|i| m.movable(*i)).collect();
    let want: std::collections::BTreeSet<usize> = case.chain.expected(&m).into_iter().collect();
    ensure!(nodes.iter().copied().collect::<std::collections::BTreeSet<_>>() == want, "chain has nodes {nodes:?} instead of {want:?}");
    ensure!(ch.dof() == idx.len(), "dof is {} with {} movable nodes", ch.dof(), idx.len());
    let names: Vec<String> = ch.iter_joints().map(|j| j.name.clone()).collect();
    let wnames: Vec<String> = idx.iter().map(|i| m.name[*i].clone()).collect();
    ensure!(names == wnames, "iter_joints gives {names:?}, movable nodes are {wnames:?}");
    let read = |m: &Model| -> Res {
        let q: Vec<f64> = ch.joint_positions().iter().map(|p| p.d()).collect();
        let w: Vec<f64> = idx.iter().map(|i| m.pos[*i]).collect();
        ensure!(q.len() == w.len() && q.iter().zip(&w).all(|(a, b)| same(*a, *b)), "joint_positions gives {q:?} instead of {w:?}");
        for i in 0..m.n {
            let p = b.nodes[i].joint_position().map(|p| p.d());
            ensure!(p.map(|p| same(p, m.pos[i])).unwrap_or(true) && p.is_some() == m.movable(i), "node {i} reads {p:?} instead of {}", m.pos[i]);
        }
        Ok(())
    };
    read(&m)?;
    let mut touched = idx.clone();
    for i in &idx {
        touched.extend(m.closure(*i));
    }
    let leaders = m.leader.clone();
    // (C05 tells what the followers do)
    let follows = |i: usize| leaders[i].is_some();
    let mimics = (0..m.n).any(follows);
    let (mut ok, mut size, mut lim) = (0, 0, 0);
    for (step, (vals, shift)) in case.vecs.iter().enumerate() {
        let len = (idx.len() as i64 + *shift as i64).max(0) as usize;
        let q: Vec<T> = (0..len)
            .map(|j| {
                let l = if j < idx.len() { m.lim[idx[j]] } else { None };
                let v = if vals.is_empty() { T::f(0.5) } else { vals[j % vals.len()].get::<T>(l) };
                if v.d().is_nan() {
                    T::f(0.25)
                } else {
                    v
                }
            })
            .collect();
        let before = snaps(&b.nodes);
        let r = ch.set_joint_positions(&q);
        let e = |s: String| format!("step {step}: setting {:?} on {:?} with limits {:?}: {s}", q.iter().map(|x| x.d()).collect::<Vec<_>>(), idx, idx.iter().map(|i| m.lim[*i]).collect::<Vec<_>>());
        let bad: Vec<usize> = idx.iter().zip(&q).filter(|(i, v)| !follows(**i) && !m.in_limits(**i, v.d())).map(|(i, _)| *i).collect();
        if len != idx.len() {
            size += 1;
            match r {
                Err(k::Error::SizeMismatchError { input, required }) if input == len && required == idx.len() => {}
                _ => return Err(e(format!("wrong length gives {r:?}"))),
            }
            ensure!(snaps(&b.nodes) == before, "{}", e("a rejected length changed something".into()));
        } else if mimics {
            if !bad.is_empty() {
                lim += 1;
                ensure!(r.is_err(), "{}", e("violation gives no error".into()));
            }
            if let Err(x) = &r {
                ensure!(matches!(x, k::Error::OutOfLimitError { .. }), "{}", e(format!("error {x:?}")));
            }
            for (i, v) in idx.iter().zip(&q) {
                let p = b.nodes[*i].joint_position().map(|p| p.d()).unwrap_or(f64::NAN);
                let fine = follows(*i) || p == v.d() && !bad.contains(i) || r.is_err() && same(p, m.pos[*i]);
                ensure!(fine, "{}", e(format!("{} has {p} afterwards, it had {}", m.name[*i], m.pos[*i])));
            }
            for i in &touched {
                m.pos[*i] = b.nodes[*i].joint_position().map(|p| p.d()).unwrap_or(0.0);
            }
            ctx.label("with followers");
        } else if bad.is_empty() {
            ok += 1;
            ensure!(r.is_ok(), "{}", e(format!("rejected: {r:?}")));
            for (i, v) in idx.iter().zip(&q) {
                m.pos[*i] = v.d();
            }
        } else {
            lim += 1;
            match &r {
                Err(k::Error::OutOfLimitError { joint_name, position, max_limit, min_limit }) => {
                    let known = idx.iter().zip(&q).any(|(i, v)| {
                        bad.contains(i) && m.name[*i] == *joint_name && same(*position, v.d()) && m.lim[*i] == Some((*min_limit, *max_limit))
                    });
                    ensure!(known, "{}", e(format!("error does not tell a violation: {r:?}")));
                }
                _ => return Err(e(format!("violation gives {r:?}"))),
            }
            for (i, v) in idx.iter().zip(&q) {
                let p = b.nodes[*i].joint_position().map(|p| p.d()).unwrap_or(f64::NAN);
                let fine = p == m.pos[*i] || (p == v.d() && !bad.contains(i));
                ensure!(fine, "{}", e(format!("{} has {p} afterwards, it had {}", m.name[*i], m.pos[*i])));
                m.pos[*i] = p;
            }
        }
        read(&m).map_err(e)?;
        let now = snaps(&b.nodes);
        for i in 0..m.n {
            let mut w = before[i].clone();
            if touched.contains(&i) {
                w.pos = now[i].pos;
            }
            ensure!(now[i] == w, "{}", e(format!("node {i} changed from {:?} to {:?}", before[i], now[i])));
        }
    }
    ctx.label(T::NAME);
    ctx.label_if(ok > 0, "accepted");
    ctx.label_if(size > 0, "wrong length");
    ctx.label_if(lim > 0, "out of limits");
    ctx.label_if(idx.len() < (0..m.n).filter(|i| m.movable(*i)).count(), "joints outside");
    let between = nodes.iter().enumerate().any(|(a, i)| {
        !m.movable(*i) && nodes[..a].iter().any(|j| m.movable(*j)) && nodes[a..].iter().any(|j| m.movable(*j))
    });
    ctx.label_if(between, "fixed between movable");
    ctx.nontrivial = ok > 0 && idx.len() >= 2;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C04";
    const RULE: &'static str = "random tree, most without mimic joints, one chain of any kind over it, several vectors of right and wrong length inside and outside of the limits; non-trivial: a vector of at least 2 joints is accepted";
    const ASSUME: &'static [&'static str] = &["values are not NaN here (see C02)"];
    const QUICK: u64 = 500_000;
    const THOROUGH: u64 = 10_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let v = || prop_oneof![8 => val_sel(false, false), 1 => val_sel(true, true)];
        let shift = prop_oneof![7 => Just(0i8), 1 => Just(-1i8), 1 => Just(1i8), 1 => -10..10i8];
        let c = Cfg {
            any_names: true,
            big: true,
            ..Cfg::BASE
        };
        let followed = Cfg { mimics: 0.5, ..c };
        (prop_oneof![4 => tree(c), 1 => tree(followed)], chain_sel(), vec((vec(v(), 0..8), shift), 1..6))
            .prop_map(|(tree, chain, vecs)| Case { tree, chain, vecs })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
