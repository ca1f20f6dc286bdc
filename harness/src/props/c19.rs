//! Centre of mass
use crate::math::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Set(u16, ValSel),
    Origin(u16, PoseSpec),
    Transforms(ChainSel),
    Links(ChainSel),
    SetLink(u16, Option<LinkSpec>),
    Com(ChainSel),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub ops: Vec<Op>,
    pub last: ChainSel,
    /// decimal exponent of the unit of all masses
    #[serde(default)]
    pub unit: i8,
}

pub struct P;

fn scaled(l: &Option<LinkSpec>, unit: i8) -> Option<LinkSpec> {
    let mut l = l.clone();
    if let Some(i) = l.as_mut().and_then(|l| l.inertial.as_mut()) {
        i.mass.0 *= 10f64.powi(unit as i32);
    }
    l
}

/// mass and origin of the inertial
pub fn inert<T: Sc>(l: &Option<LinkSpec>) -> Option<(f64, Iso)> {
    match l.as_ref()?.inertial.as_ref() {
        Some(i) => Some((T::f(i.mass.0).d(), opt_iso::<T>(&i.origin))),
        None => Some((0.0, Iso::ID)),
    }
}

/// centre of mass of some nodes whose total mass is given, and its tolerance
pub fn com_of<T: Sc>(m: &Model, mass: &[Option<(f64, Iso)>], idx: &[usize], total: f64) -> (V3, f64) {
    let mut want = [0.0; 3];
    let mut tol: f64 = 0.0;
    let mut big = 0.0f64;
    for i in idx {
        if let Some((w, o)) = mass[*i] {
            if w == 0.0 {
                continue;
            }
            let p = m.path(*i);
            let t = m.product(&p).mul(&o);
            want = add(want, scale(t.t, w / total));
            let reach: f64 = norm(o.t) * 16.0 * T::EPS * (p.len() as f64 + 3.0);
            tol = tol.max(2.0 * m.tol(&p).1 + reach);
            big = big.max(norm(t.t));
        }
    }
    (want, tol + 8.0 * T::EPS * (idx.len() as f64 + 2.0) * (big + 1.0))
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut tree = case.tree.clone();
    for n in tree.nodes.iter_mut() {
        n.link = scaled(&n.link, case.unit);
    }
    let mut m = Model::new::<T>(&tree);
    let b = Built::<T>::new(&tree, &m);
    let mut mass: Vec<Option<(f64, Iso)>> = tree.nodes.iter().map(|n| inert::<T>(&n.link)).collect();
    let last = Op::Com(case.last.clone());
    let mut nontrivial = false;
    for (step, op) in case.ops.iter().chain(std::iter::once(&last)).enumerate() {
        let before = snaps(&b.nodes);
        match op {
            Op::Set(n, v) => {
                let i = pick(*n, m.n);
                let v: T = v.finite(m.lim[i]);
                if b.nodes[i].set_joint_position(v).is_ok() {
                    m.pos[i] = v.d();
                }
            }
            Op::Origin(n, p) => {
                let i = pick(*n, m.n);
                b.nodes[i].set_origin(pose_na::<T>(p));
                m.origin[i] = pose_iso::<T>(p);
            }
            Op::Transforms(c) => {
                c.chain(&m, &b).update_transforms();
            }
            Op::Links(c) => {
                c.chain(&m, &b).update_link_transforms();
            }
            Op::SetLink(n, l) => {
                let i = pick(*n, m.n);
                let l = scaled(l, case.unit);
                b.nodes[i].set_link(l.as_ref().map(|l| link_na::<T>(l, true)));
                mass[i] = inert::<T>(&l);
            }
            Op::Com(c) => {
                let ch = c.chain(&m, &b);
                let idx = b.indices(&ch)?;
                let total: f64 = idx.iter().filter_map(|i| mass[*i].map(|x| x.0)).sum();
                let com = k::center_of_mass(&ch);
                ensure!(snaps(&b.nodes) == before, "step {step}: the robot changed");
                for i in &idx {
                    let p = m.path(*i);
                    let Some(t) = b.nodes[*i].world_transform() else {
                        return Err(format!("step {step}: node {i} has no world transform"));
                    };
                    close(&t, &m.product(&p), m.tol(&p)).map_err(|x| format!("step {step}: node {i}: {x}"))?;
                }
                if total <= 0.0 {
                    continue;
                }
                let (want, tol) = com_of::<T>(&m, &mass, &idx, total);
                let weights = |i: &usize| mass[*i].is_some_and(|x| x.0 != 0.0);
                let n = idx.iter().filter(|i| weights(i)).count();
                let turned = idx.iter().filter(|i| weights(i)).any(|i| mdiff(&m.world(*i).r, &I3) > 1e-3 && norm(mass[*i].unwrap().1.t) > 1e-3);
                let got = v3(&com);
                ensure!(vdiff(got, want) <= tol, "step {step}: centre of mass {got:?} instead of {want:?} (allowed error {tol:e}); nodes {idx:?}, masses {:?}, positions {:?}", mass.iter().map(|x| x.map(|x| x.0)).collect::<Vec<_>>(), m.pos);
                nontrivial |= n >= 2 && turned;
                ctx.label_if(idx.len() < m.n && mass.iter().enumerate().any(|(i, x)| !idx.contains(&i) && x.map(|x| x.0 > 0.0).unwrap_or(false)), "mass outside of the chain");
                ctx.label_if(idx.iter().any(|i| mass[*i].map(|x| x.0 == 0.0).unwrap_or(false)), "massless link");
                ctx.label_if(idx.iter().any(|i| mass[*i].is_none()), "node without link");
            }
        }
    }
    ctx.label(T::NAME);
    ctx.label_if(case.unit != 0, "very light or heavy");
    ctx.nontrivial = nontrivial;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C19";
    const RULE: &'static str = "random tree with links on some nodes, history of moving joints, replacing links and updating chains; centre of mass of chains of all kinds compared with the weighted mean; non-trivial: two masses, one of them off its turned joint";
    const ASSUME: &'static [&'static str] = &["total mass positive, masses not negative", "equal up to rounding errors"];
    const QUICK: u64 = 250_000;
    const THOROUGH: u64 = 3_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let t = tree(Cfg {
            links: true,
            max: 8,
            ..Cfg::BASE
        });
        let n = any::<u16>;
        let op = prop_oneof![
            3 => (n(), val_sel(false, true)).prop_map(|(a, b)| Op::Set(a, b)),
            1 => (n(), pose()).prop_map(|(a, b)| Op::Origin(a, b)),
            1 => chain_sel().prop_map(Op::Transforms),
            1 => chain_sel().prop_map(Op::Links),
            2 => chain_sel().prop_map(Op::Com),
            1 => (n(), prop::option::of(link(any_name()))).prop_map(|(a, b)| Op::SetLink(a, b)),
        ];
        let unit = prop_oneof![3 => Just(0i8), 1 => -14i8..14];
        (t, vec(op, 0..5), chain_sel(), unit).prop_map(|(tree, ops, last, unit)| Case { tree, ops, last, unit }).boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
