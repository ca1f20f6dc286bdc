//! Tree edits
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Attach(u16, u16),
    Detach(u16),
    /// connect![a => b => c]
    Connect(u16, u16, u16),
    Connect2(u16, u16),
    /// forget our handle
    Drop(u16),
    /// get a handle back through a parent or child
    Regain(u16),
    SetPos(u16, F),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub ops: Vec<Op>,
    /// joints share this many names
    #[serde(default)]
    pub names: Option<u8>,
}

pub struct P;

struct Forest {
    parent: Vec<Option<usize>>,
    children: Vec<Vec<usize>>,
    alive: Vec<bool>,
    handle: Vec<bool>,
}

impl Forest {
    fn below(&self, i: usize, top: usize) -> bool {
        let mut x = Some(i);
        while let Some(y) = x {
            if y == top {
                return true;
            }
            x = self.parent[y];
        }
        false
    }
    fn detach(&mut self, i: usize) {
        if let Some(p) = self.parent[i].take() {
            self.children[p].retain(|x| *x != i);
        }
    }
    fn attach(&mut self, i: usize, p: usize) {
        self.detach(i);
        self.parent[i] = Some(p);
        self.children[p].push(i);
    }
    /// nodes die if nobody refers to them
    fn collect(&mut self) {
        loop {
            let dead = (0..self.alive.len()).find(|i| self.alive[*i] && !self.handle[*i] && self.parent[*i].is_none());
            let Some(i) = dead else { break };
            self.alive[i] = false;
            for c in std::mem::take(&mut self.children[i]) {
                self.parent[c] = None;
            }
        }
    }
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    // only the joints of the tree are used, and its relations as a start; the x of the origin tells which node it is
    let mut spec = case.tree.clone();
    for (i, n) in spec.nodes.iter_mut().enumerate() {
        n.name = case.names.map(|k| format!("n{}", i % k.max(1) as usize));
    }
    let m = Model::new::<T>(&spec);
    let b = Built::<T>::new(&spec, &m);
    for (i, n) in b.nodes.iter().enumerate() {
        let mut o = n.origin();
        o.translation.vector.x = T::f(i as f64);
        n.set_origin(o);
    }
    let id = |n: &k::Node<T>| n.origin().translation.vector.x.d() as usize;
    let ids = |v: &[k::Node<T>]| v.iter().map(&id).collect::<Vec<_>>();
    let mut data: Vec<Snap> = snaps(&b.nodes);
    let mut h: Vec<Option<k::Node<T>>> = b.nodes.into_iter().map(Some).collect();
    let mut fo = Forest {
        parent: m.parent.clone(),
        children: m.children.clone(),
        alive: vec![true; m.n],
        handle: vec![true; m.n],
    };
    let (mut moved, mut detached, mut dropped, mut orphans) = (0, 0, 0, 0);
    for (step, op) in case.ops.iter().enumerate() {
        let held: Vec<usize> = (0..m.n).filter(|i| h[*i].is_some()).collect();
        if held.is_empty() {
            break;
        }
        let at = |s: u16| held[pick(s, held.len())];
        let mut again: Option<(usize, usize, Vec<usize>)> = None; // attached to the parent it has
        match op {
            Op::Attach(c, p) => {
                let (c, p) = (at(*c), at(*p));
                if !fo.below(p, c) {
                    if fo.parent[c] == Some(p) {
                        again = Some((c, p, fo.children[p].clone()));
                    }
                    moved += usize::from(fo.parent[c].is_some());
                    h[c].as_ref().unwrap().set_parent(h[p].as_ref().unwrap());
                    fo.attach(c, p);
                }
            }
            Op::Connect2(p, c) => {
                let (c, p) = (at(*c), at(*p));
                if !fo.below(p, c) && fo.parent[c] != Some(p) {
                    let (x, y) = (h[p].as_ref().unwrap(), h[c].as_ref().unwrap());
                    k::connect![x => y];
                    moved += usize::from(fo.parent[c].is_some());
                    fo.attach(c, p);
                }
            }
            Op::Connect(x, y, z) => {
                let (x, y, z) = (at(*x), at(*y), at(*z));
                let fine = x != y && y != z && x != z && !fo.below(x, y) && !fo.below(x, z) && !fo.below(y, z);
                // attaching y to x must not put z above
                if fine && fo.parent[y] != Some(x) && fo.parent[z] != Some(y) {
                    let (nx, ny, nz) = (h[x].as_ref().unwrap(), h[y].as_ref().unwrap(), h[z].as_ref().unwrap());
                    k::connect![nx => ny => nz];
                    moved += usize::from(fo.parent[y].is_some()) + usize::from(fo.parent[z].is_some());
                    fo.attach(y, x);
                    fo.attach(z, y);
                }
            }
            Op::Detach(c) => {
                let c = at(*c);
                if let Some(p) = fo.parent[c] {
                    // the parent may be one we have no handle of
                    let parent = h[c].as_ref().unwrap().parent().ok_or(format!("step {step}: {c} reports no parent instead of {p}"))?;
                    h[c].as_ref().unwrap().remove_parent(&parent);
                    fo.detach(c);
                    detached += 1;
                }
            }
            Op::Drop(c) => {
                if held.len() > 1 {
                    let c = at(*c);
                    h[c] = None;
                    fo.handle[c] = false;
                    dropped += 1;
                    if fo.parent[c].is_none() {
                        orphans += fo.children[c].len();
                    }
                }
            }
            Op::Regain(c) => {
                let lost: Vec<usize> = (0..m.n).filter(|i| fo.alive[*i] && h[*i].is_none()).collect();
                if !lost.is_empty() {
                    let c = lost[pick(*c, lost.len())];
                    // look for it below the roots we hold
                    let found = held.iter().flat_map(|r| h[*r].as_ref().unwrap().iter_descendants().take(1000).collect::<Vec<_>>()).find(|n| id(n) == c);
                    if let Some(n) = found {
                        h[c] = Some(n);
                        fo.handle[c] = true;
                    }
                }
            }
            Op::SetPos(c, v) => {
                let c = at(*c);
                let _ = h[c].as_ref().unwrap().set_joint_position(T::f(v.0));
                data[c] = snap(h[c].as_ref().unwrap());
            }
        }
        fo.collect();
        let e = |s: String| format!("step {step} {op:?}: {s}");
        // the order is open if it was attached again to the same parent
        if let Some((c, p, old)) = again {
            let now = h[p].as_ref().unwrap().children().clone();
            if ids(&now) == old {
                fo.children[p] = old;
                let _ = c;
            }
        }
        // visit everything which is reachable
        let mut todo: Vec<k::Node<T>> = h.iter().flatten().cloned().collect();
        let mut seen = vec![false; m.n];
        let mut visits = 0;
        while let Some(n) = todo.pop() {
            visits += 1;
            ensure!(visits < 10_000, "{}", e("the relations have a cycle".into()));
            let s = snap(&n);
            let i = id(&n);
            ensure!(i < m.n, "{}", e(format!("unknown joint {}", s.name)));
            if seen[i] {
                continue;
            }
            seen[i] = true;
            ensure!(s == data[i], "{}", e(format!("data of joint {i} changed from {:?} to {s:?}", data[i])));
            let parent = n.parent();
            let pid = parent.as_ref().map(&id);
            ensure!(pid == fo.parent[i], "{}", e(format!("{i} reports the parent {pid:?} instead of {:?}", fo.parent[i])));
            let ch: Vec<k::Node<T>> = n.children().clone();
            let cn = ids(&ch);
            ensure!(cn == fo.children[i], "{}", e(format!("{i} has the children {cn:?} instead of {:?}", fo.children[i])));
            for c in &ch {
                ensure!(c.parent().as_ref() == Some(&n), "{}", e(format!("{:?} is a child of {} but does not report it as parent", c.joint().name, s.name)));
            }
            if let Some(p) = &parent {
                let k = p.children().iter().filter(|c| **c == n).count();
                ensure!(k == 1, "{}", e(format!("{} is {k} times a child of its parent", s.name)));
            }
            ensure!(n.is_root() == fo.parent[i].is_none(), "{}", e(format!("{}.is_root() = {}", s.name, n.is_root())));
            ensure!(n.is_end() == fo.children[i].is_empty(), "{}", e(format!("{}.is_end() = {}", s.name, n.is_end())));
            todo.extend(ch);
            todo.extend(parent);
        }
        for i in 0..m.n {
            ensure!(seen[i] == fo.alive[i] || !fo.alive[i] || !seen[i], "{}", e(format!("joint {i} should be gone")));
            ensure!(!fo.handle[i] || seen[i], "{}", e(format!("joint {i} is lost")));
        }
    }
    ctx.label(T::NAME);
    ctx.label_if(case.names.is_some(), "equal names");
    ctx.label_if(moved > 0, "moved to another parent");
    ctx.label_if(detached > 0, "detached");
    ctx.label_if(dropped > 0, "handle dropped");
    ctx.label_if(orphans > 0, "parent dropped");
    ctx.nontrivial = moved + detached + orphans > 0;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C09";
    const RULE: &'static str = "random tree of up to 10 nodes, history of attaching (also nodes which have a parent), detaching, connect! and dropping or regaining handles; all reachable nodes are compared with the model after every step; non-trivial: a node was moved, detached or lost its parent";
    const ASSUME: &'static [&'static str] = &[
        "no operation creates a cycle; detaching names the actual parent",
        "attaching a node again to the parent it has may keep its place or move it to the end",
    ];
    const QUICK: u64 = 450_000;
    const THOROUGH: u64 = 6_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let n = any::<u16>;
        let op = prop_oneof![
            6 => (n(), n()).prop_map(|(a, b)| Op::Attach(a, b)),
            3 => n().prop_map(Op::Detach),
            1 => (n(), n(), n()).prop_map(|(a, b, c)| Op::Connect(a, b, c)),
            1 => (n(), n()).prop_map(|(a, b)| Op::Connect2(a, b)),
            2 => n().prop_map(Op::Drop),
            1 => n().prop_map(Op::Regain),
            1 => (n(), position()).prop_map(|(a, b)| Op::SetPos(a, b)),
        ];
        (tree(Cfg::BASE), vec(op, 1..16), prop::option::weighted(0.4, 1u8..4)).prop_map(|(tree, ops, names)| Case { tree, ops, names }).boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
