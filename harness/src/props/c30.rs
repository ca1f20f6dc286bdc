//! Ownership
use super::doc::*;
use crate::heap;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use k::InverseKinematicsSolver;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Attach(u16, u16),
    Detach(u16),
    /// follower, leader, multiplier, offset
    Mimic(u16, u16, F, F),
    /// forget our handle
    Drop(u16),
    /// get a handle from a chain
    Take(u16, u16),
    /// 0 from a root, 1 from an end, 2 between, 3 of some nodes
    Make(u8, u16, u16),
    Forget(u16),
    /// clone a chain that starts at a root, use and drop it
    Clone(u16, F),
    Set(u16, F),
    Update(u16),
    Links(u16),
    Solve(u16, PoseSpec),
    Jacobian(u16),
    Link(u16, Option<LinkSpec>),
    Print(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub ops: Vec<Op>,
    pub doc: Option<Doc>,
}

pub struct P;

struct World<T: Sc> {
    m: Model,
    handle: Vec<Option<k::Node<T>>>,
    alive: Vec<bool>,
    chains: Vec<(k::Chain<T>, Vec<usize>)>,
}

#[derive(Default)]
struct Saw {
    orphans: usize,
    without_leader: usize,
    kept: usize,
    edited: usize,
    followers: usize,
    upward: usize,
}

impl<T: Sc> World<T> {
    fn held(&self) -> Vec<usize> {
        (0..self.m.n).filter(|i| self.handle[*i].is_some()).collect()
    }
    fn detach(&mut self, i: usize) {
        if let Some(p) = self.m.parent[i].take() {
            self.m.children[p].retain(|x| *x != i);
        }
    }
    /// nodes go if nobody refers to them
    fn collect(&mut self, saw: &mut Saw) {
        loop {
            let dead = (0..self.m.n)
                .find(|i| self.alive[*i] && self.handle[*i].is_none() && self.m.parent[*i].is_none() && !self.chains.iter().any(|c| c.1.contains(i)));
            let Some(i) = dead else { break };
            self.alive[i] = false;
            for c in std::mem::take(&mut self.m.children[i]) {
                self.m.parent[c] = None;
                saw.orphans += usize::from(self.handle[c].is_some() || self.chains.iter().any(|x| x.1.contains(&c)));
            }
            for j in 0..self.m.n {
                if self.m.leader[j].map(|l| l.0) == Some(i) {
                    self.m.leader[j] = None;
                    saw.without_leader += usize::from(self.alive[j]);
                }
            }
        }
        // relations of nodes which are gone do not matter
        for j in 0..self.m.n {
            if !self.alive[j] {
                self.m.leader[j] = None;
            }
        }
    }
    /// nodes may have been put below other ones since the chain was made
    fn in_order(&self, list: &[usize]) -> bool {
        list.iter().enumerate().skip(1).all(|(k, i)| self.m.parent[*i].map(|p| list[..k].contains(&p)).unwrap_or(true))
    }
    fn id(&self, n: &k::Node<T>) -> Option<usize> {
        let name = n.joint().name.clone();
        (0..self.m.n).find(|i| self.m.name[*i] == name)
    }
    fn look(&self) -> Res {
        for (k, (c, list)) in self.chains.iter().enumerate() {
            let now: Vec<Option<usize>> = c.iter().map(|n| self.id(n)).collect();
            let want: Vec<Option<usize>> = list.iter().map(|i| Some(*i)).collect();
            ensure!(now == want, "chain {k} lists the nodes {now:?} instead of {want:?}");
            let mov: Vec<usize> = list.iter().copied().filter(|i| self.m.movable(*i)).collect();
            let q = c.joint_positions();
            ensure!(c.dof() == mov.len() && q.len() == mov.len(), "chain {k} has {} degrees of freedom and {} positions instead of {}", c.dof(), q.len(), mov.len());
            for (x, i) in q.iter().zip(&mov) {
                ensure!(x.d() == self.m.pos[*i], "chain {k} has joint {i} at {:?} instead of {}", x.d(), self.m.pos[*i]);
            }
        }
        let mut todo: Vec<k::Node<T>> = self.handle.iter().flatten().cloned().collect();
        todo.extend(self.chains.iter().flat_map(|c| c.0.iter().cloned()));
        let mut seen = vec![false; self.m.n];
        while let Some(n) = todo.pop() {
            let Some(i) = self.id(&n) else {
                return Err(format!("unknown joint {}", n.joint().name));
            };
            if seen[i] {
                continue;
            }
            seen[i] = true;
            ensure!(self.alive[i], "node {i} should be gone");
            let p = n.joint_position().map(|p| p.d());
            let want = self.m.movable(i).then_some(self.m.pos[i]);
            ensure!(p == want, "joint {i} is at {p:?} instead of {want:?}");
            let parent = n.parent();
            let got = parent.as_ref().map(|p| self.id(p));
            ensure!(got == self.m.parent[i].map(Some), "the parent of node {i} is {got:?} instead of {:?}", self.m.parent[i]);
            ensure!(n.is_root() == self.m.parent[i].is_none(), "node {i}: is_root() is {}", n.is_root());
            let got = n.mimic_parent().map(|p| self.id(&p));
            let want = self.m.leader[i].map(|l| Some(l.0));
            ensure!(got == want, "the leader of node {i} is {got:?} instead of {want:?}");
            let ch: Vec<k::Node<T>> = n.children().clone();
            let got: Vec<Option<usize>> = ch.iter().map(|n| self.id(n)).collect();
            let want: Vec<Option<usize>> = self.m.children[i].iter().map(|c| Some(*c)).collect();
            ensure!(got == want, "node {i} has the children {got:?} instead of {want:?}");
            todo.extend(ch);
            todo.extend(parent);
        }
        for i in 0..self.m.n {
            ensure!(seen[i] == self.alive[i], "node {i} is {} but it should {}", if seen[i] { "there" } else { "gone" }, if self.alive[i] { "be there" } else { "be gone" });
        }
        Ok(())
    }
}

fn story<T: Sc>(case: &Case, saw: &mut Saw) -> Res {
    let mut spec = case.tree.clone();
    for (i, n) in spec.nodes.iter_mut().enumerate() {
        n.name = Some(format!("n{i}"));
    }
    let m = Model::new::<T>(&spec);
    let b = Built::<T>::new(&spec, &m);
    let n = m.n;
    saw.upward += (0..n).filter(|i| m.leader[*i].map(|l| m.path(l.0).contains(i)).unwrap_or(false)).count();
    let mut w = World {
        m,
        handle: b.nodes.into_iter().map(Some).collect(),
        alive: vec![true; n],
        chains: vec![],
    };
    for (step, op) in case.ops.iter().enumerate() {
        let held = w.held();
        let at = |s: &u16| if held.is_empty() { None } else { Some(held[pick(*s, held.len())]) };
        let chain = |s: &u16| if w.chains.is_empty() { None } else { Some(pick(*s, w.chains.len())) };
        match op {
            Op::Attach(c, p) => {
                if let (Some(c), Some(p)) = (at(c), at(p)) {
                    if !w.m.path(p).contains(&c) && w.m.parent[c] != Some(p) {
                        w.handle[c].as_ref().unwrap().set_parent(w.handle[p].as_ref().unwrap());
                        w.detach(c);
                        w.m.parent[c] = Some(p);
                        w.m.children[p].push(c);
                        saw.edited += w.chains.iter().filter(|x| x.1.contains(&c) || x.1.contains(&p)).count();
                    }
                }
            }
            Op::Detach(c) => {
                if let Some(c) = at(c) {
                    if w.m.parent[c].is_some() {
                        let x = w.handle[c].as_ref().unwrap();
                        let p = x.parent().ok_or(format!("step {step}: node {c} has no parent"))?;
                        x.remove_parent(&p);
                        w.detach(c);
                        saw.edited += w.chains.iter().filter(|x| x.1.contains(&c)).count();
                    }
                }
            }
            Op::Mimic(x, l, mult, off) => {
                if let (Some(x), Some(l)) = (at(x), at(l)) {
                    if x != l && w.m.movable(x) && w.m.movable(l) && !w.m.closure(x).contains(&l) {
                        let (mult, off) = (T::f(mult.0), T::f(off.0));
                        w.handle[x].as_ref().unwrap().set_mimic_parent(w.handle[l].as_ref().unwrap(), k::joint::Mimic::new(mult, off));
                        w.m.leader[x] = Some((l, mult.d(), off.d()));
                        saw.upward += usize::from(w.m.path(l).contains(&x));
                    }
                }
            }
            Op::Drop(c) => {
                if let Some(c) = at(c) {
                    w.handle[c] = None;
                }
            }
            Op::Take(c, i) => {
                if let Some(c) = chain(c) {
                    let (ch, list) = &w.chains[c];
                    let k = pick(*i, list.len());
                    let i = list[k];
                    let x = ch.iter().nth(k).cloned();
                    w.handle[i] = x;
                }
            }
            Op::Make(kind, a, z) => {
                if let Some(a) = at(a) {
                    let x = w.handle[a].as_ref().unwrap();
                    let path = w.m.path(a);
                    let top = path[pick(*z, path.len())];
                    let c = match kind % 4 {
                        0 => k::Chain::from_root(x.clone()),
                        1 => k::Chain::from_end(x),
                        2 => {
                            let t = x.iter_ancestors().find(|n| w.id(n) == Some(top)).ok_or(format!("step {step}: {top} is not above {a}"))?;
                            k::Chain::from_end_to_root(x, &t)
                        }
                        _ => k::Chain::from_nodes(x.iter_descendants().collect()),
                    };
                    let list: Option<Vec<usize>> = c.iter().map(|n| w.id(n)).collect();
                    let list = list.ok_or(format!("step {step}: unknown node in a chain"))?;
                    let mut sorted = list.clone();
                    sorted.sort_unstable();
                    let mut want = match kind % 4 {
                        0 | 3 => w.m.subtree(a),
                        1 => path,
                        _ => path[path.iter().position(|x| *x == top).unwrap()..].to_vec(),
                    };
                    want.sort_unstable();
                    ensure!(sorted == want, "step {step} {op:?}: the chain consists of {sorted:?} instead of {want:?}");
                    if w.chains.len() < 4 {
                        w.chains.push((c, list));
                    }
                }
            }
            Op::Forget(c) => {
                if let Some(c) = chain(c) {
                    w.chains.remove(c);
                }
            }
            Op::Clone(c, v) => {
                if let Some(c) = chain(c) {
                    let (ch, list) = &w.chains[c];
                    // the tree may have changed since
                    let whole = list.iter().skip(1).all(|i| w.m.parent[*i].map(|p| list.contains(&p)).unwrap_or(false));
                    let mut parents_first = true;
                    for (k, i) in list.iter().enumerate().skip(1) {
                        parents_first &= w.m.parent[*i].map(|p| list[..k].contains(&p)).unwrap_or(false);
                    }
                    if w.m.parent[list[0]].is_none() && whole && parents_first {
                        let new = ch.clone();
                        ensure!(new.iter().count() == list.len(), "step {step}: the clone has other nodes");
                        new.set_joint_positions_clamped(&vec![T::f(v.0); new.dof()]);
                        for x in new.iter() {
                            let _ = x.set_joint_position(T::f(v.0));
                        }
                        new.update_transforms();
                    }
                }
            }
            Op::Set(i, v) => {
                if let Some(i) = at(i) {
                    if w.m.movable(i) {
                        let v = T::f(v.0);
                        let r = w.handle[i].as_ref().unwrap().set_joint_position(v);
                        ensure!(r.is_ok(), "step {step} {op:?}: joint {i} cannot be set: {r:?}");
                        if w.m.leader[i].is_none() {
                            w.m.pos[i] = v.d();
                            let mut todo = vec![(i, v)];
                            while let Some((i, v)) = todo.pop() {
                                for j in 0..w.m.n {
                                    if let (true, Some((l, a, o))) = (w.alive[j], w.m.leader[j]) {
                                        if l == i {
                                            let x = v * T::f(a) + T::f(o);
                                            w.m.pos[j] = x.d();
                                            todo.push((j, x));
                                            saw.followers += 1;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Op::Update(c) => {
                if let Some(c) = chain(c) {
                    let (ch, list) = &w.chains[c];
                    if !w.in_order(list) {
                        continue;
                    }
                    let t = ch.update_transforms();
                    ensure!(t.len() == list.len(), "step {step}: {} transforms for {} nodes", t.len(), list.len());
                    for (i, t) in list.iter().zip(&t) {
                        let p = w.m.path(*i);
                        close(t, &w.m.product(&p), w.m.tol(&p)).map_err(|e| format!("step {step} {op:?}: transform of node {i}: {e}"))?;
                    }
                    saw.kept += usize::from(list.iter().any(|i| w.handle[*i].is_none()));
                }
            }
            Op::Links(c) => {
                if let Some(c) = chain(c).filter(|c| w.in_order(&w.chains[*c].1)) {
                    w.chains[c].0.update_transforms();
                    w.chains[c].0.update_velocities();
                    w.chains[c].0.update_link_transforms();
                }
            }
            Op::Solve(c, p) => {
                if let Some(c) = chain(c) {
                    // a chain of one path, whose relations are still the same
                    let list = w.chains[c].1.clone();
                    let path = list.windows(2).all(|x| w.m.parent[x[1]] == Some(x[0]));
                    if path {
                        let end = &w.chains[c].0.iter().last().unwrap().clone();
                        let first = &w.chains[c].0.iter().next().unwrap().clone();
                        let arm = k::SerialChain::from_end_to_root(end, first);
                        let t = arm.end_transform() * pose_na::<T>(p);
                        let s = k::JacobianIkSolver::new(T::f(0.01), T::f(0.01), T::f(0.5), 3);
                        let mut c = k::Constraints::default();
                        (c.rotation_x, c.rotation_y, c.rotation_z) = (false, false, false);
                        let _ = s.solve(&arm, &t);
                        let _ = s.solve_with_constraints(&arm, &t, &c);
                        for (n, i) in arm.iter().zip(&list) {
                            if let Some(p) = n.joint_position() {
                                w.m.pos[*i] = p.d();
                            }
                        }
                    }
                }
            }
            Op::Jacobian(i) => {
                if let Some(i) = at(i) {
                    let arm = k::SerialChain::from_end(w.handle[i].as_ref().unwrap());
                    let j = k::jacobian(&arm);
                    ensure!(j.ncols() == arm.dof(), "step {step}: jacobian with {} columns", j.ncols());
                }
            }
            Op::Link(i, l) => {
                if let Some(i) = at(i) {
                    w.handle[i].as_ref().unwrap().set_link(l.as_ref().map(|l| link_na::<T>(l, true)));
                }
            }
            Op::Print(c) => {
                if let Some(c) = chain(c) {
                    let _ = format!("{} {:?}", w.chains[c].0, w.chains[c].0);
                }
            }
        }
        w.collect(saw);
        w.look().map_err(|e| format!("step {step} {op:?}: {e}"))?;
    }
    if let Some(d) = &case.doc {
        let c = k::Chain::<T>::from(&d.parse()?);
        let q: Vec<T> = c.joint_positions();
        let _ = c.set_joint_positions(&q);
        let _ = c.clone();
    }
    Ok(())
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut saw = Saw::default();
    story::<T>(case, &mut saw)?;
    // whatever is allocated once is there now
    let before = heap::live();
    {
        let mut saw = Saw::default();
        story::<T>(case, &mut saw)?;
    }
    let after = heap::live();
    ensure!(after == before, "{} bytes are not released after everything is dropped", after - before);
    ctx.label(T::NAME);
    ctx.label_if(saw.orphans > 0, "parent gone");
    ctx.label_if(saw.without_leader > 0, "leader gone");
    ctx.label_if(saw.kept > 0, "nodes kept by a chain");
    ctx.label_if(saw.edited > 0, "nodes of a chain attached or detached");
    ctx.label_if(saw.followers > 0, "followers moved");
    ctx.label_if(saw.upward > 0, "a node follows one below it");
    ctx.label_if(case.doc.is_some(), "URDF");
    ctx.nontrivial = saw.orphans + saw.without_leader + saw.kept + saw.edited > 0;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C30";
    const RULE: &'static str = "random tree with mimic relations, history of building and dropping chains and handles, attaching, detaching, mimicking, moving, cloning, updating and solving, against a model of who owns what; the whole story is told twice, and the second time it has to release what it allocates (counting allocator); non-trivial: a parent or leader was dropped, a chain was used whose nodes nobody else holds, or nodes of a chain were attached or detached";
    const TERMINATES: bool = true;
    const ASSUME: &'static [&'static str] = &[
        "no relation makes a cycle of ancestors or of leaders",
        "chains are updated unless one of their nodes, except the first, was attached to a node which they do not list before",
        "only chains are cloned whose nodes still form one tree in order",
    ];
    const QUICK: u64 = 250_000;
    const THOROUGH: u64 = 4_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let n = any::<u16>;
        let op = prop_oneof![
            3 => (n(), n()).prop_map(|(a, b)| Op::Attach(a, b)),
            3 => n().prop_map(Op::Detach),
            2 => (n(), n(), multiplier(), offset()).prop_map(|(a, b, c, d)| Op::Mimic(a, b, c, d)),
            8 => n().prop_map(Op::Drop),
            2 => (n(), n()).prop_map(|(a, b)| Op::Take(a, b)),
            4 => (0u8..4, n(), n()).prop_map(|(a, b, c)| Op::Make(a, b, c)),
            2 => n().prop_map(Op::Forget),
            1 => (n(), position()).prop_map(|(a, b)| Op::Clone(a, b)),
            4 => (n(), position()).prop_map(|(a, b)| Op::Set(a, b)),
            2 => n().prop_map(Op::Update),
            1 => n().prop_map(Op::Links),
            1 => (n(), pose()).prop_map(|(a, b)| Op::Solve(a, b)),
            1 => n().prop_map(Op::Jacobian),
            1 => (n(), prop::option::of(link(any_name()))).prop_map(|(a, b)| Op::Link(a, b)),
            1 => n().prop_map(Op::Print),
        ];
        let t = tree(Cfg {
            mimics: 0.25,
            limits: false,
            ..Cfg::BASE
        });
        (t, vec(op, 1..20), prop::option::weighted(0.05, doc(6, 0.3, true))).prop_map(|(tree, ops, doc)| Case { tree, ops, doc }).boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
