//! Chain construction and iteration
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub chains: Vec<ChainSel>,
    pub node: u16,
    pub list: Vec<u16>,
    pub lookup: String,
}

pub struct P;

fn parents_first(m: &Model, idx: &[usize]) -> Res {
    for (p, i) in idx.iter().enumerate().skip(1) {
        let Some(par) = m.parent[*i] else {
            return Err(format!("the root is at place {p} of {idx:?}"));
        };
        ensure!(idx[..p].contains(&par), "node {i} comes before its parent {par} in {idx:?}");
    }
    Ok(())
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let m = Model::new::<T>(&case.tree);
    let b = Built::<T>::new(&case.tree, &m);
    // each node once, in any order
    let mut list: Vec<usize> = vec![];
    for x in &case.list {
        let i = pick(*x, m.n);
        if !list.contains(&i) {
            list.push(i);
        }
    }
    for sel in case.chains.iter().map(Some).chain(std::iter::once(None)) {
        let (ch, want) = match sel {
            Some(sel) => (sel.chain(&m, &b), sel.expected(&m)),
            None => (k::Chain::from_nodes(list.iter().map(|i| b.nodes[*i].clone()).collect()), list.clone()),
        };
        let idx = b.indices(&ch)?;
        let e = |s: String| format!("{sel:?} over parents {:?}: {s}", m.parent);
        if sel.is_none() {
            ensure!(idx == want, "{}", e(format!("nodes are {idx:?} instead of {want:?}")));
        } else if let Some(sel) = sel.filter(|s| matches!(s.kind, 1 | 2)) {
            ensure!(idx == want, "{}", e(format!("nodes are {idx:?} instead of {want:?}")));
            let s = sel.serial(&m, &b);
            ensure!(b.indices(&s)? == want, "{}", e(format!("serial chain has {:?} instead of {want:?}", b.indices(&s)?)));
        } else {
            let (mut x, mut y) = (idx.clone(), want.clone());
            x.sort_unstable();
            y.sort_unstable();
            ensure!(x == y, "{}", e(format!("nodes are {idx:?} instead of (in any order) {want:?}")));
            ensure!(idx[0] == want[0], "{}", e(format!("first node is {} instead of {}", idx[0], want[0])));
        }
        if sel.is_some() {
            parents_first(&m, &idx).map_err(e)?;
        }
        // same order everywhere
        let names: Vec<String> = idx.iter().map(|i| m.name[*i].clone()).collect();
        let got: Vec<String> = ch.iter().map(|n| n.joint().name.clone()).collect();
        ensure!(got == names, "{}", e(format!("names {got:?} instead of {names:?}")));
        let mov: Vec<usize> = idx.iter().copied().filter(|i| m.movable(*i)).collect();
        let got: Vec<(String, f64)> = ch.iter_joints().map(|j| (j.name.clone(), j.joint_position().unwrap().d())).collect();
        let w: Vec<(String, f64)> = mov.iter().map(|i| (m.name[*i].clone(), m.pos[*i])).collect();
        ensure!(got == w, "{}", e(format!("joints {got:?} instead of {w:?}")));
        let got: Vec<f64> = ch.joint_positions().iter().map(|p| p.d()).collect();
        ensure!(got == w.iter().map(|x| x.1).collect::<Vec<_>>(), "{}", e(format!("positions {got:?} instead of {w:?}")));
        ensure!(ch.dof() == mov.len(), "{}", e(format!("dof {} instead of {}", ch.dof(), mov.len())));
        let got: Vec<String> = ch.iter_links().map(|l| link_string(&l)).collect();
        let w: Vec<String> = idx
            .iter()
            .filter_map(|i| case.tree.nodes[*i].link.as_ref())
            .map(|l| link_string(&link_na::<T>(l, true)))
            .collect();
        ensure!(got == w, "{}", e(format!("links {got:?} instead of {w:?}")));
        // find
        for name in names.iter().chain(std::iter::once(&case.lookup)) {
            let w = names.iter().position(|x| x == name).map(|p| idx[p]);
            let got = match ch.find(name) {
                None => None,
                Some(n) => Some(b.index(n).ok_or("find returns an unknown node")?),
            };
            ensure!(got == w, "{}", e(format!("find({name:?}) gives {got:?} instead of {w:?} in {names:?}")));
        }
        ctx.label_if(idx.iter().any(|i| m.children[*i].len() > 1), "branch");
        ctx.label_if(!idx.is_empty() && idx[0] != 0, "not from the root");
        let mut u = names.clone();
        u.sort();
        u.dedup();
        ctx.label_if(u.len() < names.len(), "repeated names");
        ctx.nontrivial |= sel.is_some() && idx.len() >= 2 && m.ends().len() > 1;
    }
    let i = pick(case.node, m.n);
    let anc: Vec<Option<usize>> = b.nodes[i].iter_ancestors().take(m.n + 2).map(|n| b.index(&n)).collect();
    let mut w: Vec<Option<usize>> = m.path(i).into_iter().map(Some).collect();
    w.reverse();
    ensure!(anc == w, "ancestors of {i} are {anc:?} instead of {w:?}, parents {:?}", m.parent);
    let des: Vec<Option<usize>> = b.nodes[i].iter_descendants().take(m.n + 2).map(|n| b.index(&n)).collect();
    ensure!(des[0] == Some(i), "descendants of {i} start with {:?}", des[0]);
    let mut x: Vec<Option<usize>> = des.clone();
    x.sort_unstable();
    let mut w: Vec<Option<usize>> = m.subtree(i).into_iter().map(Some).collect();
    w.sort_unstable();
    ensure!(x == w, "descendants of {i} are {des:?} instead of (in any order) {w:?}, parents {:?}", m.parent);
    ctx.label(T::NAME);
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C07";
    const RULE: &'static str = "random tree with arbitrary, also repeated, names and links, several chains of all kinds over it and one of listed nodes, lookups of all its names and one more, iterators from one node; non-trivial: the tree has a branch and a chain at least 2 nodes";
    const ASSUME: &'static [&'static str] = &["the root given for a chain between two nodes is an ancestor of the end or the end itself"];
    const QUICK: u64 = 500_000;
    const THOROUGH: u64 = 5_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let c = Cfg {
            any_names: true,
            big: true,
            ..Cfg::BASE
        };
        let light = (tree(c), vec(prop::option::weighted(0.6, any_name()), 1..8)).prop_map(|(mut t, names)| {
            // links without elements are enough here
            for (i, n) in t.nodes.iter_mut().enumerate() {
                n.link = names[i % names.len()].clone().map(|name| LinkSpec {
                    name: format!("{name}{i}"),
                    inertial: None,
                    visuals: vec![],
                    collisions: vec![],
                });
            }
            t
        });
        (light, vec(chain_sel(), 1..4), any::<u16>(), any_name(), vec(any::<u16>(), 0..8))
            .prop_map(|(tree, chains, node, lookup, list)| Case {
                list,
                tree,
                chains,
                node,
                lookup,
            })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
