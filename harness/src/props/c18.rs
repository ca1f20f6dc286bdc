//! Link elements
use crate::math::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use k::link::Link;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Set(u16, ValSel),
    Origin(u16, PoseSpec),
    Links(ChainSel),
    Transforms(ChainSel),
    SetLink(u16, Option<LinkSpec>),
    /// node, element: gets another origin
    ElemOrigin(u16, u16, PoseSpec),
    Clear(u16, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub ops: Vec<Op>,
    pub last: ChainSel,
}

pub struct P;

type Na<T> = k::nalgebra::Isometry3<T>;

/// origins and world transforms: inertial, visuals, collisions
pub fn elements<T: Sc>(l: &Link<T>) -> Vec<(Na<T>, Option<Na<T>>)> {
    let mut v = vec![(*l.inertial.origin(), *l.inertial.world_transform())];
    v.extend(l.visuals.iter().map(|e| (*e.origin(), *e.world_transform())));
    v.extend(l.collisions.iter().map(|e| (*e.origin(), *e.world_transform())));
    v
}

#[derive(Clone)]
struct Elem {
    origin: Iso,
    /// bits of the last update
    world: Option<[u64; 7]>,
}

fn spec_elems<T: Sc>(l: &Option<LinkSpec>) -> Vec<Elem> {
    let mk = |origin| Elem { origin, world: None };
    match l {
        None => vec![],
        Some(l) => {
            let mut v = vec![mk(l.inertial.as_ref().map(|i| opt_iso::<T>(&i.origin)).unwrap_or(Iso::ID))];
            v.extend(l.visuals.iter().chain(&l.collisions).map(|e| mk(opt_iso::<T>(&e.origin))));
            v
        }
    }
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = Model::new::<T>(&case.tree);
    let b = Built::<T>::new(&case.tree, &m);
    let mut elems: Vec<Vec<Elem>> = case.tree.nodes.iter().map(|n| spec_elems::<T>(&n.link)).collect();
    let last = Op::Links(case.last.clone());
    let (mut placed, mut rotated, mut cleared, mut again) = (0, 0, 0, 0);
    for (step, op) in case.ops.iter().chain(std::iter::once(&last)).enumerate() {
        let e = |s: String| format!("step {step} {op:?}: {s}");
        let before = snaps(&b.nodes);
        // the node which may change besides its transforms
        let mut touched = None;
        let mut covered: Vec<usize> = vec![];
        match op {
            Op::Set(n, v) => {
                let i = pick(*n, m.n);
                let v: T = v.finite(m.lim[i]);
                if b.nodes[i].set_joint_position(v).is_ok() {
                    m.pos[i] = v.d();
                }
                touched = Some(i);
            }
            Op::Origin(n, p) => {
                let i = pick(*n, m.n);
                b.nodes[i].set_origin(pose_na::<T>(p));
                m.origin[i] = pose_iso::<T>(p);
                touched = Some(i);
            }
            Op::Transforms(c) => {
                c.chain(&m, &b).update_transforms();
            }
            Op::SetLink(n, l) => {
                let i = pick(*n, m.n);
                b.nodes[i].set_link(l.as_ref().map(|l| link_na::<T>(l, true)));
                elems[i] = spec_elems::<T>(l);
                touched = Some(i);
            }
            Op::ElemOrigin(n, k, p) => {
                let i = pick(*n, m.n);
                if !elems[i].is_empty() {
                    let k = pick(*k, elems[i].len());
                    let mut l = b.nodes[i].link().clone().ok_or("the link is gone")?;
                    let nv = l.visuals.len();
                    let o = pose_na::<T>(p);
                    if k == 0 {
                        l.inertial.set_origin(o)
                    } else if k <= nv {
                        l.visuals[k - 1].set_origin(o)
                    } else {
                        l.collisions[k - 1 - nv].set_origin(o)
                    }
                    b.nodes[i].set_link(Some(l));
                    again += usize::from(elems[i][k].world.is_some());
                    elems[i][k] = Elem {
                        origin: pose_iso::<T>(p),
                        world: None,
                    };
                    touched = Some(i);
                }
            }
            Op::Clear(n, k) => {
                let i = pick(*n, m.n);
                if !elems[i].is_empty() {
                    let k = pick(*k, elems[i].len());
                    let mut l = b.nodes[i].link().clone().ok_or("the link is gone")?;
                    let nv = l.visuals.len();
                    if k == 0 {
                        l.inertial.clear_world_transform()
                    } else if k <= nv {
                        l.visuals[k - 1].clear_world_transform()
                    } else {
                        l.collisions[k - 1 - nv].clear_world_transform()
                    }
                    b.nodes[i].set_link(Some(l));
                    cleared += usize::from(elems[i][k].world.is_some());
                    elems[i][k].world = None;
                }
            }
            Op::Links(c) => {
                let ch = c.chain(&m, &b);
                covered = b.indices(&ch)?;
                ch.update_link_transforms();
            }
        }
        let after = snaps(&b.nodes);
        for i in 0..m.n {
            ensure!(touched == Some(i) || before[i] == after[i], "{}", e(format!("node {i} changed from {:?} to {:?}", before[i], after[i])));
        }
        for i in 0..m.n {
            let l = b.nodes[i].link().clone();
            let got = l.as_ref().map(elements).unwrap_or_default();
            ensure!(got.len() == elems[i].len(), "{}", e(format!("the link of node {i} has {} elements instead of {}", got.len(), elems[i].len())));
            let p = m.path(i);
            let (tr, tt) = m.tol(&p);
            if covered.contains(&i) {
                let Some(t) = b.nodes[i].world_transform() else {
                    return Err(e(format!("node {i} has no world transform")));
                };
                close(&t, &m.product(&p), (tr, tt)).map_err(|x| e(format!("node {i}: {x}")))?;
            }
            for (k, (o, w)) in got.iter().enumerate() {
                let el = &mut elems[i][k];
                close(o, &el.origin, (8.0 * T::EPS, 8.0 * T::EPS * (1.0 + norm(el.origin.t)))).map_err(|x| e(format!("element {k} of node {i} has another origin: {x}")))?;
                if covered.contains(&i) {
                    let want = m.product(&p).mul(&el.origin);
                    let Some(w) = w else {
                        return Err(e(format!("element {k} of node {i} has no world transform")));
                    };
                    close(w, &want, (2.0 * tr, 2.0 * tt + 16.0 * T::EPS * (p.len() as f64 + 3.0) * norm(el.origin.t))).map_err(|x| e(format!("element {k} of node {i}: {x}")))?;
                    el.world = Some(iso_bits(w));
                    placed += 1;
                    rotated += usize::from(mdiff(&m.product(&p).r, &I3) > 1e-3 && norm(el.origin.t) > 1e-3);
                } else {
                    let now = w.as_ref().map(iso_bits);
                    ensure!(now == el.world, "{}", e(format!("the transform of element {k} of node {i} is {w:?}, before it was {:?}", el.world.map(|x| T::from_bits7(&x)))));
                }
            }
        }
    }
    ctx.label(T::NAME);
    ctx.label_if(cleared > 0, "cleared");
    ctx.label_if(again > 0, "another origin after an update");
    ctx.label_if(placed > 3, "more than three elements placed");
    ctx.nontrivial = placed > 0 && rotated > 0;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C18";
    const RULE: &'static str = "random tree with links of up to 7 elements, history of moving joints, replacing links, changing or clearing elements and updating chains; all elements of all nodes compared after every step; non-trivial: an element with offset on a rotated joint is placed";
    const ASSUME: &'static [&'static str] = &["equal up to rounding errors of the length of the path"];
    const QUICK: u64 = 160_000;
    const THOROUGH: u64 = 2_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let t = tree(Cfg {
            links: true,
            max: 8,
            ..Cfg::BASE
        });
        let n = any::<u16>;
        let op = prop_oneof![
            3 => (n(), val_sel(false, true)).prop_map(|(a, b)| Op::Set(a, b)),
            1 => (n(), pose()).prop_map(|(a, b)| Op::Origin(a, b)),
            1 => chain_sel().prop_map(Op::Transforms),
            3 => chain_sel().prop_map(Op::Links),
            1 => (n(), prop::option::of(link(any_name()))).prop_map(|(a, b)| Op::SetLink(a, b)),
            2 => (n(), n(), pose()).prop_map(|(a, b, c)| Op::ElemOrigin(a, b, c)),
            1 => (n(), n()).prop_map(|(a, b)| Op::Clear(a, b)),
        ];
        (t, vec(op, 0..7), chain_sel()).prop_map(|(tree, ops, last)| Case { tree, ops, last }).boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
