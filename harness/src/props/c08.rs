//! Conversion into serial chains
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    /// a path, with some nodes attached elsewhere
    pub branches: Vec<(u8, u16)>,
    pub end: ChainSel,
}

pub struct P;

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut tree = case.tree.clone();
    let n = tree.nodes.len();
    for (i, p) in &case.branches {
        let i = (*i as usize) % n;
        if i > 0 {
            tree.nodes[i].parent = 40000u16.max(*p);
        }
    }
    let m = Model::new::<T>(&tree);
    let b = Built::<T>::new(&tree, &m);
    let chain = k::Chain::from_root(b.nodes[0].clone());
    let idx = b.indices(&chain)?;
    let serial = m.children.iter().all(|c| c.len() <= 1);
    let before = snaps(&b.nodes);
    match k::SerialChain::try_new(chain) {
        None => ensure!(!serial, "a chain without branches is not converted, parents {:?}", m.parent),
        Some(s) => {
            ensure!(serial, "a chain with branches is converted, parents {:?}", m.parent);
            let got = b.indices(&s)?;
            ensure!(got == idx, "the serial chain has the nodes {got:?} instead of {idx:?}");
            for w in got.windows(2) {
                ensure!(m.parent[w[1]] == Some(w[0]), "{} is not the parent of {}", w[0], w[1]);
            }
            let c = s.unwrap();
            ensure!(b.indices(&c)? == idx, "unwrap gives {:?} instead of {idx:?}", b.indices(&c)?);
        }
    }
    let s = case.end.serial(&m, &b);
    let (got, want) = (b.indices(&s)?, case.end.expected(&m));
    ensure!(got == want, "{:?}: serial chain {got:?} instead of {want:?}, parents {:?}", case.end, m.parent);
    ensure!(b.indices(&s.unwrap())? == want, "unwrap changed the nodes");
    let s = k::SerialChain::new_unchecked(case.end.chain(&m, &b));
    ensure!(b.indices(&s)? == want, "new_unchecked changed the nodes");
    ensure!(snaps(&b.nodes) == before, "conversion changed joints");
    ctx.label(if serial { "without branch" } else { "with branch" });
    ctx.label_if(n == 1, "one node");
    if !serial {
        let d = (0..n).filter(|i| m.children[*i].len() > 1).map(|i| m.path(i).len()).min().unwrap_or(0);
        ctx.label_if(d >= 3, "first branch at depth 3 or more");
    }
    ctx.nontrivial = n >= 3;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C08";
    const RULE: &'static str = "a path of 1 to 30 nodes with no, one or a few nodes attached elsewhere; non-trivial: at least 3 nodes";
    const ASSUME: &'static [&'static str] = &["conversion is tried on chains from a root"];
    const QUICK: u64 = 600_000;
    const THOROUGH: u64 = 6_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let c = Cfg {
            serial: true,
            big: true,
            ..Cfg::BASE
        };
        let br = prop_oneof![
            4 => Just(vec![]),
            4 => proptest::collection::vec((any::<u8>(), any::<u16>()), 1),
            1 => proptest::collection::vec((any::<u8>(), any::<u16>()), 2..5),
        ];
        (tree(c), br, serial_sel()).prop_map(|(tree, branches, end)| Case { tree, branches, end }).boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
