//! Editing relations while other threads use the robot
use crate::num::*;
use crate::runner::*;
use crate::sched;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    // edits of the nodes of the thread
    Attach(u16, u16),
    Detach(u16),
    Follow(u16, u16, F, F),
    Link(u16, bool),
    // anything else
    Set(u16, F),
    SetChain(u8, Vec<F>),
    Pos(u16),
    Parent(u16),
    Kids(u16),
    Down(u16),
    Up(u16),
    Print(u8),
    Find(u8, u16),
    Links(u8),
    Clone,
    FromRoot(u16),
    FromEnd(u16),
    Update(u8),
    UpdateLinks(u8),
    Velocities(u8),
    Mass(u8),
    /// Jacobian and end pose of the path to a node
    Arm(u16),
    PrintNode(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    /// edits of any node before
    pub pre: Vec<Op>,
    pub chains: Vec<ChainSel>,
    pub native: bool,
    pub threads: Vec<Vec<Op>>,
    pub plan: Vec<(u8, u8)>,
    /// nodes are led by nodes with larger numbers, not smaller ones
    #[serde(default)]
    pub upwards: bool,
}

pub struct P;

/// What an edit means
#[derive(Clone, Copy, Debug)]
enum Edit {
    Attach(usize, usize),
    Detach(usize),
    Follow(usize, usize, f64, f64),
    Link(usize, bool),
}

/// a node is only attached to nodes with smaller numbers, and led by such nodes, or by ones with larger numbers
fn edit<T: Sc>(m: &Model, own: &[usize], op: &Op, upwards: bool) -> Option<Edit> {
    if own.is_empty() {
        return None;
    }
    let node = |n: &u16| own[pick(*n, own.len())];
    match op {
        Op::Attach(n, p) => {
            let i = node(n);
            (i > 0).then(|| Edit::Attach(i, pick(*p, i)))
        }
        Op::Detach(n) => Some(Edit::Detach(node(n))),
        Op::Follow(n, l, a, o) => {
            let i = node(n);
            let c: Vec<usize> = (0..m.n).filter(|j| m.movable(*j) && *j != i && upwards == (*j > i)).collect();
            (m.movable(i) && !c.is_empty()).then(|| Edit::Follow(i, c[pick(*l, c.len())], T::f(a.0).d(), T::f(o.0).d()))
        }
        Op::Link(n, some) => Some(Edit::Link(node(n), *some)),
        _ => None,
    }
}

fn perform<T: Sc>(b: &Built<T>, e: Edit) {
    match e {
        Edit::Attach(i, p) => b.nodes[i].set_parent(&b.nodes[p]),
        Edit::Detach(i) => {
            let p = b.nodes[i].parent();
            if let Some(p) = p {
                b.nodes[i].remove_parent(&p);
            }
        }
        Edit::Follow(i, l, a, o) => b.nodes[i].set_mimic_parent(&b.nodes[l], k::joint::Mimic::new(T::f(a), T::f(o))),
        Edit::Link(i, some) => b.nodes[i].set_link(some.then(|| k::link::LinkBuilder::new().name(&format!("l{i}")).finalize())),
    }
}

struct World<'a, T: Sc> {
    m: &'a Model,
    b: &'a Built<T>,
    chains: &'a [k::Chain<T>],
    chain_idx: &'a [Vec<usize>],
    whole: &'a k::Chain<T>,
    whole_idx: &'a [usize],
    /// its path is not edited by anyone
    still: &'a [bool],
    /// parents it may have
    parents: &'a [Vec<Option<usize>>],
    upwards: bool,
    /// positions it may have, none if there are too many
    values: &'a [Option<Vec<(f64, f64)>>],
}

fn may_hold(v: &Option<Vec<(f64, f64)>>, x: f64) -> bool {
    v.as_ref().is_none_or(|v| v.iter().any(|(y, tol)| (x - y).abs() <= *tol))
}

fn step<T: Sc>(w: &World<T>, own: &[usize], op: &Op) -> Res {
    let m = w.m;
    let node = |n: &u16| pick(*n, m.n);
    let id = |n: &k::Node<T>| w.b.index(n).ok_or_else(|| "an unknown node".to_string());
    // of a path or a part of the tree
    let below = |r: usize, v: Vec<usize>| -> Res {
        ensure!(v.first() == Some(&r) && v[1..].iter().all(|i| *i > r), "descendants of node {r} are {v:?}");
        if w.still[r] {
            for i in m.subtree(r) {
                let n = v.iter().filter(|j| **j == i).count();
                ensure!(!w.still[i] || n == 1, "node {i} appears {n} times in the descendants of node {r}: {v:?}");
            }
        }
        Ok(())
    };
    let above = |e: usize, v: Vec<usize>| -> Res {
        ensure!(v.first() == Some(&e) && v.windows(2).all(|p| p[0] > p[1]), "ancestors of node {e} are {v:?}");
        for p in v.windows(2) {
            ensure!(w.parents[p[0]].contains(&Some(p[1])), "node {} is above node {} in {v:?}", p[1], p[0]);
        }
        if w.still[e] {
            let mut p = m.path(e);
            p.reverse();
            ensure!(v == p, "ancestors of node {e} are {v:?} instead of {p:?}");
        }
        Ok(())
    };
    match op {
        Op::Attach(..) | Op::Detach(_) | Op::Follow(..) | Op::Link(..) => {
            if let Some(e) = edit::<T>(m, own, op, w.upwards) {
                perform(w.b, e);
            }
        }
        Op::Set(n, v) => {
            let i = node(n);
            let r = w.b.nodes[i].set_joint_position(T::f(v.0));
            ensure!(r.is_ok() == m.movable(i), "setting node {i} gives {r:?}");
        }
        Op::SetChain(c, v) => {
            let c = *c as usize % w.chains.len();
            let q: Vec<T> = (0..w.chains[c].dof()).map(|j| T::f(v[j % v.len()].0)).collect();
            let r = w.chains[c].set_joint_positions(&q);
            ensure!(r.is_ok(), "setting {:?} gives {r:?}", w.chain_idx[c]);
        }
        Op::Pos(n) => {
            let i = node(n);
            let p = w.b.nodes[i].joint_position().map(|p| p.d());
            ensure!(p.is_some() == m.movable(i), "node {i} has the position {p:?}");
            if let Some(p) = p {
                ensure!(may_hold(&w.values[i], p), "node {i} has the position {p}, possible are {:?}", w.values[i]);
            }
        }
        Op::Parent(n) => {
            let i = node(n);
            let p = match w.b.nodes[i].parent() {
                Some(p) => Some(id(&p)?),
                None => None,
            };
            ensure!(w.parents[i].contains(&p), "node {i} has the parent {p:?}");
            let root = w.b.nodes[i].is_root();
            ensure!(w.parents[i].iter().any(|p| p.is_none() == root), "node {i} is a root: {root}");
        }
        Op::Kids(n) => {
            let i = node(n);
            let c = w.b.nodes[i].children().clone();
            let v: Vec<usize> = c.iter().map(id).collect::<Result<_, _>>()?;
            for (a, j) in v.iter().enumerate() {
                ensure!(w.parents[*j].contains(&Some(i)) && !v[..a].contains(j), "children of node {i} are {v:?}");
            }
            for j in 0..m.n {
                ensure!(!w.still[j] || m.parent[j] != Some(i) || v.contains(&j), "children of node {i} are {v:?}");
            }
        }
        Op::Down(n) => {
            let i = node(n);
            below(i, w.b.nodes[i].iter_descendants().map(|n| id(&n)).collect::<Result<_, _>>()?)?;
        }
        Op::Up(n) => {
            let i = node(n);
            above(i, w.b.nodes[i].iter_ancestors().map(|n| id(&n)).collect::<Result<_, _>>()?)?;
        }
        Op::FromRoot(n) => {
            let i = node(n);
            below(i, w.b.indices(&k::Chain::from_root(w.b.nodes[i].clone()))?)?;
        }
        Op::FromEnd(n) => {
            let i = node(n);
            let mut v = w.b.indices(&k::Chain::from_end(&w.b.nodes[i]))?;
            v.reverse();
            above(i, v)?;
        }
        Op::Print(c) => {
            let c = *c as usize % w.chains.len();
            let s = format!("{}", w.chains[c]);
            let first = w.chain_idx[c][0];
            for i in &w.chain_idx[c] {
                if w.still[*i] && w.still[first] {
                    let n = s.lines().filter(|l| l.trim_start().split(' ').next() == Some(&m.name[*i])).count();
                    ensure!(n == 1, "node {i} appears {n} times in {s:?}");
                }
            }
        }
        Op::Find(c, n) => {
            let c = *c as usize % w.chains.len();
            let i = node(n);
            let f = w.chains[c].find(&m.name[i]).map(|f| w.b.index(f));
            let want = w.chain_idx[c].contains(&i).then_some(Some(i));
            ensure!(f == want, "finding node {i} gives {f:?}");
        }
        Op::Links(c) => {
            let c = *c as usize % w.chains.len();
            for l in w.chains[c].iter_links() {
                let name = l.name.clone();
                ensure!(w.chain_idx[c].iter().any(|i| name == format!("l{i}")), "a link {name:?}");
            }
        }
        Op::Clone => {
            let c = w.whole.clone();
            ensure!(c.iter().count() == w.whole_idx.len() && c.dof() == w.whole.dof(), "the clone has another size");
            let nodes: Vec<_> = c.iter().cloned().collect();
            for (x, i) in nodes.iter().zip(w.whole_idx) {
                ensure!(x.joint().name == m.name[*i], "the clone of node {i} has another name");
                if w.still[*i] {
                    let p = x.parent().and_then(|p| nodes.iter().position(|y| *y == p)).map(|j| w.whole_idx[j]);
                    ensure!(p == m.parent[*i], "the clone of node {i} is attached to {p:?}");
                }
                if let Some(p) = x.joint_position() {
                    ensure!(may_hold(&w.values[*i], p.d()), "the clone of node {i} has the position {p:?}, possible are {:?}", w.values[*i]);
                }
            }
        }
        Op::Update(c) => {
            let c = *c as usize % w.chains.len();
            let n = w.chains[c].update_transforms().len();
            ensure!(n == w.chain_idx[c].len(), "{n} transforms");
        }
        Op::UpdateLinks(c) => w.chains[*c as usize % w.chains.len()].update_link_transforms(),
        Op::Velocities(c) => {
            let c = *c as usize % w.chains.len();
            let n = w.chains[c].update_velocities().len();
            ensure!(n == w.chain_idx[c].len(), "{n} velocities");
        }
        Op::Mass(c) => {
            // the links have no mass
            let p = k::center_of_mass(&w.chains[*c as usize % w.chains.len()]);
            ensure!(p.iter().all(|x| x.d().is_nan()), "the centre of no mass is {p:?}");
        }
        Op::Arm(n) => {
            let arm = k::SerialChain::from_end(&w.b.nodes[node(n)]);
            let j = k::jacobian(&arm);
            ensure!(j.ncols() == arm.dof() && j.iter().all(|x| x.d().is_finite()), "the Jacobian is {j:?}");
            let e = arm.end_transform();
            ensure!(e.to_homogeneous().iter().all(|x| x.d().is_finite()), "the end pose is {e:?}");
        }
        Op::PrintNode(n) => {
            let i = node(n);
            let s = w.b.nodes[i].to_string();
            ensure!(s.split(' ').next() == Some(&m.name[i]), "node {i} is printed as {s:?}");
        }
    }
    Ok(())
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = Model::new::<T>(&case.tree);
    let b = Built::<T>::new(&case.tree, &m);
    if case.threads.is_empty() || case.chains.is_empty() {
        return Ok(());
    }
    let threads = case.threads.len();
    // when it was attached: before, or by a thread
    let mut at: Vec<(usize, usize)> = vec![(threads, 0); m.n];
    for (i, a) in m.attach_order(&case.tree).into_iter().enumerate() {
        at[a].1 = i;
    }
    let mut leader: Vec<Option<(usize, f64, f64)>> = vec![None; m.n];
    let mut link = vec![false; m.n];
    let mut stamp = m.n;
    // the relations of the model, in the order of the edits
    let mut note = |m: &mut Model, e: Edit, by: usize, at: &mut Vec<(usize, usize)>, leader: &mut Vec<Option<(usize, f64, f64)>>, link: &mut Vec<bool>| {
        stamp += 1;
        match e {
            Edit::Attach(i, p) => {
                m.parent[i] = Some(p);
                at[i] = (by, stamp);
            }
            Edit::Detach(i) => m.parent[i] = None,
            Edit::Follow(i, l, a, o) => leader[i] = Some((l, a, o)),
            Edit::Link(i, some) => link[i] = some,
        }
    };
    let everyone: Vec<usize> = (1..m.n).collect();
    for op in &case.pre {
        if let Some(e) = edit::<T>(&m, &everyone, op, case.upwards) {
            perform(&b, e);
            note(&mut m, e, threads, &mut at, &mut leader, &mut link);
        }
    }
    let rebuild = |m: &mut Model, at: &[(usize, usize)]| {
        for i in 0..m.n {
            m.children[i] = (0..m.n).filter(|j| m.parent[*j] == Some(i)).collect();
            m.children[i].sort_by_key(|j| at[*j].1);
        }
    };
    rebuild(&mut m, &at);
    // positions which are only told before
    let chains: Vec<k::Chain<T>> = case.chains.iter().map(|c| c.chain(&m, &b)).collect();
    let chain_idx: Vec<Vec<usize>> = chains.iter().map(|c| b.indices(c)).collect::<Result<_, _>>()?;
    let whole = k::Chain::from_root(b.nodes[0].clone());
    let whole_idx = b.indices(&whole)?;
    let own: Vec<Vec<usize>> = (0..threads).map(|t| (1..m.n).filter(|i| i % threads == t).collect()).collect();
    // ---- what may happen, and what will be left
    let mut end = m.clone();
    let mut end_at = at.clone();
    let mut end_leader = leader.clone();
    let mut parents: Vec<Vec<Option<usize>>> = m.parent.iter().map(|p| vec![*p]).collect();
    let mut leaders: Vec<Vec<(usize, f64, f64)>> = leader.iter().map(|l| l.iter().copied().collect()).collect();
    let mut sets: Vec<Vec<f64>> = vec![vec![]; m.n];
    let mut edited = vec![false; m.n];
    let (mut attaches, mut follows, mut others) = (0, 0, 0);
    for (t, ops) in case.threads.iter().enumerate() {
        for op in ops {
            if let Some(e) = edit::<T>(&m, &own[t], op, case.upwards) {
                match e {
                    Edit::Attach(i, p) => {
                        // it is detached first
                        parents[i].extend([None, Some(p)]);
                        edited[i] = true;
                        attaches += 1;
                    }
                    Edit::Detach(i) => {
                        parents[i].push(None);
                        edited[i] = true;
                        attaches += 1;
                    }
                    Edit::Follow(i, l, a, o) => {
                        leaders[i].push((l, a, o));
                        follows += 1;
                    }
                    Edit::Link(..) => {}
                }
                note(&mut end, e, t, &mut end_at, &mut end_leader, &mut link);
            } else {
                others += 1;
            }
            match op {
                Op::Set(n, v) => sets[pick(*n, m.n)].push(T::f(v.0).d()),
                Op::SetChain(c, v) => {
                    let idx = chain_idx[*c as usize % chains.len()].iter().filter(|i| m.movable(**i));
                    for (j, i) in idx.enumerate() {
                        sets[*i].push(T::f(v[j % v.len()].0).d());
                    }
                }
                _ => {}
            }
        }
    }
    rebuild(&mut end, &end_at);
    let still: Vec<bool> = (0..m.n).map(|i| m.path(i).iter().all(|j| !edited[*j])).collect();
    // values which are passed on to the followers, and those it may hold
    let mut passed: Vec<Option<Vec<(f64, f64)>>> = vec![None; m.n];
    let mut values = vec![None; m.n];
    for k in 0..m.n {
        let i = if case.upwards { m.n - 1 - k } else { k };
        let mut v: Option<Vec<(f64, f64)>> = Some(sets[i].iter().map(|x| (*x, 0.0)).collect());
        for (l, a, o) in &leaders[i] {
            match (&mut v, &passed[*l]) {
                (Some(v), Some(x)) if v.len() + x.len() < 400 => v.extend(x.iter().map(|(x, t)| (x * a + o, t * a.abs() + 4.0 * T::EPS * ((x * a).abs() + o.abs()) + 1e-40))),
                _ => v = None,
            }
        }
        passed[i] = v.clone();
        if let Some(v) = &mut v {
            v.push((m.pos[i], 0.0));
        }
        values[i] = v;
    }
    let w = World {
        m: &m,
        b: &b,
        chains: &chains,
        chain_idx: &chain_idx,
        whole: &whole,
        whole_idx: &whole_idx,
        still: &still,
        parents: &parents,
        upwards: case.upwards,
        values: &values,
    };
    type Body<'a> = Box<dyn FnOnce() -> Res + Send + 'a>;
    let bodies: Vec<Body> = case
        .threads
        .iter()
        .zip(&own)
        .map(|(ops, own)| {
            let w = &w;
            Box::new(move || {
                for (j, op) in ops.iter().enumerate() {
                    step::<T>(w, own, op).map_err(|e| format!("call {j} {op:?}: {e}"))?;
                }
                Ok(())
            }) as Body
        })
        .collect();
    let out = sched::run(bodies, if case.native { None } else { Some(&case.plan) });
    ensure!(!out.deadlock, "deadlock: {:?}", case.threads);
    for (t, r) in out.results.iter().enumerate() {
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(format!("thread {t}: {e}; parents {:?} leaders {leader:?}", m.parent)),
            Err(e) => {
                let all: Vec<_> = out.results.iter().filter_map(|r| r.as_ref().err()).collect();
                return Err(format!("thread {t} panics: {e}; all panics: {all:?}"));
            }
        }
    }
    // ---- what is left
    let e = |s: String| format!("at the end: {s}; parents {:?}, leaders {end_leader:?}", end.parent);
    for i in 0..m.n {
        let n = &b.nodes[i];
        let p = n.parent().map(|p| b.index(&p));
        ensure!(p == end.parent[i].map(Some), "{}", e(format!("node {i} has the parent {p:?}")));
        ensure!(n.is_root() == p.is_none(), "{}", e(format!("node {i} is a root: {}", n.is_root())));
        let c = n.children().clone();
        let v: Vec<usize> = c.iter().map(|c| b.index(c).ok_or("an unknown child")).collect::<Result<_, _>>()?;
        ensure!(n.is_end() == v.is_empty(), "{}", e(format!("node {i} is an end: {}", n.is_end())));
        let mut sorted = v.clone();
        sorted.sort_by_key(|j| end_at[*j].1);
        ensure!(sorted == end.children[i], "{}", e(format!("node {i} has the children {v:?} instead of {:?}", end.children[i])));
        for (k, x) in v.iter().enumerate() {
            for y in &v[k + 1..] {
                let (a, c) = (end_at[*x], end_at[*y]);
                // those which were attached before come first, then those of a thread are in its order
                let ok = if a.0 == c.0 { a.1 < c.1 } else { c.0 != threads };
                ensure!(ok, "{}", e(format!("node {i} has the children {v:?}, node {y} was attached before node {x}")));
            }
        }
        let l = n.mimic_parent().map(|l| b.index(&l));
        ensure!(l == end_leader[i].map(|l| Some(l.0)), "{}", e(format!("node {i} follows {l:?}")));
        let name = n.link().as_ref().map(|l| l.name.clone());
        ensure!(name == link[i].then(|| format!("l{i}")), "{}", e(format!("node {i} has the link {name:?}")));
        if let Some(p) = n.joint_position() {
            ensure!(may_hold(&values[i], p.d()), "{}", e(format!("node {i} has the position {p:?}, possible are {:?}", values[i])));
        }
    }
    // followers follow, and only their leaders
    for i in (0..m.n).filter(|i| m.movable(*i)) {
        let v = T::f(0.25 * (i as f64 + 1.0));
        let before = b.positions();
        let r = b.nodes[i].set_joint_position(v);
        ensure!(r.is_ok(), "{}", e(format!("setting node {i} gives {r:?}")));
        let after = b.positions();
        for j in 0..m.n {
            let follows = {
                let mut j = j;
                while let (Some((l, ..)), true) = (end_leader[j], j != i) {
                    j = l;
                }
                j == i
            };
            let want = match (j == i, end_leader[j]) {
                _ if end_leader[i].is_some() || !follows => before[j],
                (true, _) => Some(v.d()),
                (false, Some((l, a, o))) => after[l].map(|p| p * a + o),
                (false, None) => before[j],
            };
            let ok = match (after[j], want) {
                (Some(x), Some(y)) => (x - y).abs() <= 8.0 * T::EPS * (1.0 + y.abs()) * 4.0,
                (x, y) => x == y,
            };
            ensure!(ok, "{}", e(format!("after setting node {i} to {v:?}, node {j} has the position {:?} instead of {want:?}", after[j])));
        }
    }
    for i in 0..m.n {
        end.pos[i] = b.nodes[i].joint_position().map_or(0.0, |p| p.d());
    }
    for r in (0..m.n).filter(|i| end.parent[*i].is_none()) {
        let c = k::Chain::from_root(b.nodes[r].clone());
        let t = c.update_transforms();
        let idx = b.indices(&c)?;
        let mut s = idx.clone();
        s.sort_unstable();
        let mut want = end.subtree(r);
        want.sort_unstable();
        ensure!(s == want && t.len() == s.len(), "{}", e(format!("below node {r} are {idx:?}")));
        for (i, t) in idx.iter().zip(&t) {
            let p = end.path(*i);
            close(t, &end.product(&p), end.tol(&p)).map_err(|x| e(format!("node {i}: {x}")))?;
        }
    }
    ctx.label(T::NAME);
    ctx.label(if out.controlled {
        "chosen schedule"
    } else if case.native {
        "free running"
    } else {
        "schedule given up"
    });
    let preempted = out.switches >= threads as u64;
    ctx.label_if(case.upwards, "led from below");
    ctx.label_if(preempted, "preempted");
    ctx.label_if(attaches > 0, "attached or detached");
    ctx.label_if(follows > 0, "followers assigned");
    ctx.label_if(values.iter().any(|v| v.is_none()), "too many values");
    ctx.nontrivial = attaches + follows > 0 && others > 0 && (preempted || case.native);
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C33";
    const RULE: &'static str = "2-4 threads, each of which attaches, detaches, and assigns leaders and links of its own nodes, and all of which set, read, walk, print, clone and update the whole tree, in a generated schedule with preemptions at any lock of a node; non-trivial: an edit of a relation, another call, and a preemption";
    const TERMINATES: bool = true;
    const ASSUME: &'static [&'static str] = &[
        "schedules switch where a node is locked, which is the only sharing safe Rust code has there",
        "the relations of a node are edited by one thread only, and no schedule can produce a cycle",
        "transforms are compared after the threads have finished",
    ];
    const QUICK: u64 = 220_000;
    const THOROUGH: u64 = 3_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let n = any::<u16>;
        let c = || 0u8..4;
        let x = || prop_oneof![1 => Just(F(1.0)), 4 => f(-3.0..3.0f64)];
        let edits = || {
            prop_oneof![
                4 => (n(), n()).prop_map(|(a, b)| Op::Attach(a, b)),
                1 => n().prop_map(Op::Detach),
                4 => (n(), n(), multiplier(), offset()).prop_map(|(a, b, c, d)| Op::Follow(a, b, c, d)),
                3 => (n(), prop::bool::weighted(0.6)).prop_map(|(a, b)| Op::Link(a, b)),
            ]
        };
        let op = prop_oneof![
            14 => edits(),
            6 => (n(), x()).prop_map(|(a, b)| Op::Set(a, b)),
            2 => (c(), vec(x(), 1..4)).prop_map(|(a, b)| Op::SetChain(a, b)),
            2 => n().prop_map(Op::Pos),
            1 => n().prop_map(Op::Parent),
            1 => n().prop_map(Op::Kids),
            2 => n().prop_map(Op::Down),
            1 => n().prop_map(Op::Up),
            1 => c().prop_map(Op::Print),
            1 => (c(), n()).prop_map(|(a, b)| Op::Find(a, b)),
            2 => c().prop_map(Op::Links),
            2 => Just(Op::Clone),
            1 => n().prop_map(Op::FromRoot),
            1 => n().prop_map(Op::FromEnd),
            1 => c().prop_map(Op::Update),
            1 => c().prop_map(Op::UpdateLinks),
            1 => c().prop_map(Op::Velocities),
            2 => c().prop_map(Op::Mass),
            1 => n().prop_map(Op::Arm),
            1 => n().prop_map(Op::PrintNode),
        ];
        let size = |max| {
            tree(Cfg {
                limits: false,
                max,
                ..Cfg::BASE
            })
        };
        let t = prop_oneof![2 => size(7), 1 => size(3)];
        let th = vec(op, 1..5);
        let gap = prop_oneof![5 => 0u8..6, 3 => 0u8..25, 1 => any::<u8>()];
        (
            t,
            vec(edits(), 0..5),
            vec(chain_sel(), 1..4),
            prop::bool::weighted(0.1),
            prop_oneof![5 => vec(th.clone(), 2..=2), 3 => vec(th.clone(), 3..=3), 1 => vec(th, 4..=4)],
            vec((gap, any::<u8>()), 0..14),
            prop::bool::weighted(0.3),
        )
            .prop_map(|(tree, pre, chains, native, threads, plan, upwards)| Case {
                tree,
                pre,
                chains,
                native,
                threads,
                plan,
                upwards,
            })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
