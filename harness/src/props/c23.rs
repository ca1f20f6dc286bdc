//! Maps between links and joints
use super::doc::*;
use crate::num::*;
use crate::runner::*;
use crate::{by_scalar, ensure};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub doc: Doc,
}

pub struct P;

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let d = &case.doc;
    let robot = d.parse()?;
    let lj = k::urdf::link_to_joint_map(&robot);
    let jl = k::urdf::joint_to_link_map(&robot);
    let root = k::urdf::ROOT_JOINT_NAME;
    ensure!(root == "root", "the name of the root joint is {root:?}");
    let want: HashMap<String, String> = (0..=d.n()).map(|l| (d.lname(l), if l == 0 { root.to_string() } else { d.jname(l - 1) })).collect();
    ensure!(lj == want, "the map from links to joints is {lj:?} instead of {want:?}");
    let inv: HashMap<String, String> = want.iter().map(|(a, b)| (b.clone(), a.clone())).collect();
    ensure!(jl == inv, "the map from joints to links is {jl:?} instead of {inv:?}");
    let c = k::Chain::<T>::from(&robot);
    let mut n = 0;
    for x in c.iter() {
        let joint = x.joint().name.clone();
        let link = x.link().as_ref().map(|l| l.name.clone());
        ensure!(jl.get(&joint) == link.as_ref(), "{joint:?} carries {link:?}, but is mapped to {:?}", jl.get(&joint));
        n += 1;
    }
    ensure!(n == jl.len(), "{n} nodes, {} entries", jl.len());
    ctx.label(T::NAME);
    ctx.label_if(d.n() == 0, "one link");
    ctx.label_if((0..=d.n()).any(|l| inv.contains_key(&d.lname(l))), "a link is named like a joint");
    ctx.label_if(d.lorder().first() != Some(&0), "root link not first");
    ctx.nontrivial = d.n() >= 2;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C23";
    const RULE: &'static str = "random URDF text in any order, also with links named like joints; both maps compared with the document and the converted chain; non-trivial: at least two joints";
    const ASSUME: &'static [&'static str] = &["one root link, unique names among joints and among links, no joint named root"];
    const QUICK: u64 = 120_000;
    const THOROUGH: u64 = 1_500_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        doc(10, 0.2, false).prop_map(|doc| Case { doc }).boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.doc.f32, run, case, ctx)
    }
}
