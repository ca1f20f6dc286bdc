//! The Jacobian
use crate::math::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub sel: ChainSel,
    /// between calls: new positions of any joints
    pub moves: Vec<Vec<(u16, ValSel)>>,
    /// update first
    pub update: bool,
}

pub struct P;

/// translation and rotation rates of the end of a serial chain, by each movable joint
pub fn columns(m: &Model, path: &[usize]) -> Vec<[f64; 6]> {
    path.iter()
        .filter(|i| m.movable(**i))
        .map(|i| {
            let d = path.iter().fold(Dual::ID, |a, j| a.mul(&m.local_dual(*j, if i == j { 1.0 } else { 0.0 })));
            let w = d.omega();
            [d.dt[0], d.dt[1], d.dt[2], w[0], w[1], w[2]]
        })
        .collect()
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = Model::new::<T>(&case.tree);
    let b = Built::<T>::new(&case.tree, &m);
    let arm = case.sel.serial(&m, &b);
    let path = b.indices(&arm)?;
    ensure!(path == case.sel.expected(&m), "the chain consists of {path:?} instead of {:?}", case.sel.expected(&m));
    if case.update {
        k::Chain::from_root(b.nodes[0].clone()).update_transforms();
    }
    let none = vec![];
    for (round, mv) in std::iter::once(&none).chain(case.moves.iter()).enumerate() {
        for (n, v) in mv {
            let i = pick(*n, m.n);
            let v: T = v.finite(m.lim[i]);
            if b.nodes[i].set_joint_position(v).is_ok() {
                m.pos[i] = v.d();
            }
        }
        let before = snaps(&b.nodes);
        let j = k::jacobian(&arm);
        ensure!(snaps(&b.nodes) == before, "round {round}: the joints changed");
        let want = columns(&m, &path);
        ensure!(j.nrows() == 6 && j.ncols() == want.len(), "round {round}: {} rows and {} columns for {} movable joints", j.nrows(), j.ncols(), want.len());
        let (tr, tt) = m.tol(&path);
        for (c, w) in want.iter().enumerate() {
            for r in 0..6 {
                let tol = 16.0 * if r < 3 { tt } else { tr };
                let d = (j[(r, c)].d() - w[r]).abs();
                ensure!(d <= tol, "round {round}: row {r} of column {c} is {:?} instead of {:?} (allowed error {tol:e}), chain {path:?}, positions {:?}", j[(r, c)].d(), w[r], m.pos);
            }
        }
        // the end transform it belongs to
        close(&arm.end_transform(), &m.product(&path), (tr, tt)).map_err(|e| format!("round {round}: end transform: {e}"))?;
    }
    let mov: Vec<usize> = path.iter().copied().filter(|i| m.movable(*i)).collect();
    let rotated = mov.iter().any(|i| m.kind[*i] == Kind::Rot && m.pos[*i] != 0.0);
    ctx.label(T::NAME);
    ctx.label_if(path[0] != 0, "chain not from the root");
    ctx.label_if(mov.iter().any(|i| m.kind[*i] == Kind::Lin) && mov.iter().any(|i| m.kind[*i] == Kind::Rot), "linear and rotational");
    ctx.label_if(mov.len() < path.len(), "fixed joint in the chain");
    ctx.label_if(mov.len() >= 6, "6 or more columns");
    ctx.label_if(mov.is_empty(), "no column");
    ctx.nontrivial = mov.len() >= 2 && rotated;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C11";
    const RULE: &'static str = "random tree, serial chain from the root or from any ancestor of the end, several rounds of moving joints in and above the chain; every element compared with the exact derivative of the matrix product; non-trivial: at least two columns and a turned rotational joint";
    const ASSUME: &'static [&'static str] = &["equal up to rounding errors of the length of the chain"];
    const QUICK: u64 = 700_000;
    const THOROUGH: u64 = 6_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let t = tree(Cfg {
            max: 14,
            ..Cfg::BASE
        });
        let mv = vec((any::<u16>(), val_sel(false, true)), 1..5);
        (t, serial_sel(), vec(mv, 0..3), any::<bool>()).prop_map(|(tree, sel, moves, update)| Case { tree, sel, moves, update }).boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
