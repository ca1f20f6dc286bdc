//! Order of elements in URDF documents
use super::c20::*;
use super::doc::*;
use crate::math::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub doc: Doc,
    pub jorder: Vec<u8>,
    pub lorder: Vec<u8>,
    pub style: u64,
    pub vals: Vec<F>,
}

pub struct P;

fn link_of<T: Sc>(n: &k::Node<T>) -> Option<String> {
    n.link().as_ref().map(link_string)
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let d = &case.doc;
    let n = d.n();
    // another order of everything, and another one of the links only
    let all = Doc {
        jorder: case.jorder.clone(),
        lorder: case.lorder.clone(),
        style: case.style,
        ..d.clone()
    };
    let links = Doc {
        lorder: case.lorder.clone(),
        ..d.clone()
    };
    let a = k::Chain::<T>::from(&d.parse()?);
    let b = k::Chain::<T>::from(&all.parse()?);
    let c = k::Chain::<T>::from(&links.parse()?);
    let list = |c: &k::Chain<T>| c.iter().cloned().collect::<Vec<_>>();
    ensure!(snaps(&list(&a)) == snaps(&list(&c)), "other chain by another order of the links:\n{a} and\n{c}");
    ensure!(format!("{a}") == format!("{c}"), "other chain by another order of the links:\n{a} and\n{c}");
    let names = |x: Option<k::Node<T>>| x.map(|n| n.joint().name.clone());
    for (x, y) in a.iter().zip(c.iter()) {
        ensure!(names(x.parent()) == names(y.parent()), "other parents by another order of the links");
        ensure!(names(x.mimic_parent()) == names(y.mimic_parent()), "other leaders by another order of the links");
    }
    let (ma, mb) = (by_name(&a)?, by_name(&b)?);
    ensure!(ma.len() == mb.len() && ma.keys().all(|k| mb.contains_key(k)), "other joints: {:?} and {:?}", ma.keys(), mb.keys());
    for (name, x) in &ma {
        let y = &mb[name];
        ensure!(names(x.parent()) == names(y.parent()), "parents of {name:?}: {:?} and {:?}", names(x.parent()), names(y.parent()));
        ensure!(names(x.mimic_parent()) == names(y.mimic_parent()), "leaders of {name:?}: {:?} and {:?}", names(x.mimic_parent()), names(y.mimic_parent()));
        ensure!(link_of(x) == link_of(y), "links of {name:?}: {:?} and {:?}", link_of(x), link_of(y));
        ensure!(snap(x) == snap(y), "{name:?}: {:?} and {:?}", snap(x), snap(y));
    }
    // the same positions joint by joint
    let mut pos = vec![0.0; n];
    for i in 0..n {
        if d.kind(i) == Kind::Fixed || d.leader(i).is_some() {
            continue;
        }
        let v: T = ValSel::Frac(case.vals[i % case.vals.len()]).get::<T>(d.limits::<T>(i));
        let name = d.jname(i);
        let (r, s) = (ma[&name].set_joint_position(v), mb[&name].set_joint_position(v));
        ensure!(r.is_ok() == s.is_ok(), "{name:?} set to {v:?}: {r:?} and {s:?}");
        if r.is_err() {
            // a follower may have stopped half way, in another order
            return Ok(());
        }
    }
    for i in 0..n {
        let name = d.jname(i);
        let (p, q) = (ma[&name].joint_position(), mb[&name].joint_position());
        ensure!(p.map(|x| x.bits()) == q.map(|x| x.bits()), "{name:?} is at {p:?} and {q:?}");
        pos[i] = p.map(|x| x.d()).unwrap_or(0.0);
    }
    a.update_transforms();
    b.update_transforms();
    for i in 0..n {
        let name = d.jname(i);
        // against the document, too
        let mut w = Iso::ID;
        let mut len = 0.0;
        let path = d.path(i);
        for j in &path {
            let axis = d.axis::<T>(*j);
            let m = match d.kind(*j) {
                Kind::Fixed => Iso::ID,
                Kind::Rot => Iso {
                    r: axis_angle(axis, pos[*j]),
                    t: [0.0; 3],
                },
                Kind::Lin => Iso {
                    r: I3,
                    t: scale(axis, pos[*j]),
                },
            };
            let o = upose_iso::<T>(&d.joints[*j].origin);
            len += norm(o.t) + if d.kind(*j) == Kind::Lin { pos[*j].abs() } else { 0.0 };
            w = w.mul(&o).mul(&m);
        }
        let k = path.len() as f64 + 3.0;
        let tol = (16.0 * T::EPS * k, 16.0 * T::EPS * k * (1.0 + len));
        let big = path.iter().map(|j| if d.kind(*j) == Kind::Rot { pos[*j].abs() } else { 0.0 }).fold(0.0, f64::max);
        for (which, m) in [("first", &ma), ("second", &mb)] {
            let Some(t) = m[&name].world_transform() else {
                return Err(format!("{name:?} has no world transform in the {which} chain"));
            };
            if big < 1e3 {
                close(&t, &w, tol).map_err(|e| format!("{name:?} in the {which} chain: {e}"))?;
            }
        }
    }
    ctx.label(T::NAME);
    let early = (0..n).any(|i| {
        let o = all.jorder();
        let at = |x: usize| o.iter().position(|k| *k == x);
        d.parent(i) > 0 && at(d.parent(i) - 1) > at(i)
    });
    let follow = (0..n).any(|i| {
        let o = all.jorder();
        let at = |x: usize| o.iter().position(|k| *k == x);
        matches!(d.leader(i), Some((l, _, _)) if at(l) > at(i))
    });
    ctx.label_if(early, "child before its parent");
    ctx.label_if(follow, "follower before its leader");
    ctx.label_if(d.lorder() != links.lorder(), "other order of links");
    ctx.nontrivial = n >= 2 && (d.jorder() != all.jorder() || d.lorder() != links.lorder());
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C22";
    const RULE: &'static str = "random URDF text written in two orders of all its elements, and in two orders of its links; the chains compared by name, at the same positions, and with the document; non-trivial: at least two joints, and the orders differ";
    const ASSUME: &'static [&'static str] = &["one root link, unique names, no joint named root, mimicked joints exist, no cycles of mimic relations", "transforms are equal up to rounding errors"];
    const QUICK: u64 = 60_000;
    const THOROUGH: u64 = 800_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let small = doc(9, 0.35, false);
        let with = doc(4, 0.35, true);
        (
            prop_oneof![4 => small, 1 => with],
            vec(any::<u8>(), 10),
            vec(any::<u8>(), 10),
            any::<u64>(),
            vec(f(0.0..1.0f64), 1..8),
        )
            .prop_map(|(doc, jorder, lorder, style, vals)| Case {
                doc,
                jorder,
                lorder,
                style,
                vals,
            })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.doc.f32, run, case, ctx)
    }
}
