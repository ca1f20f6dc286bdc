//! Clones
use crate::math::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Set(u16, ValSel),
    SetUnchecked(u16, ValSel),
    SetClamped(u16, ValSel),
    Positions(u8, Vec<ValSel>),
    Origin(u16, PoseSpec),
    Link(u16, Option<LinkSpec>),
    Update,
    Links,
    Velocities,
    Retarget(u16, MimicSpec),
    Attach(u16, NodeSpec),
    Move(u16, u16),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Who {
    Both,
    Original,
    Clone,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub sel: ChainSel,
    pub serial: bool,
    /// made before the clone
    pub before: Vec<Op>,
    pub ops: Vec<(Who, Op)>,
}

pub struct P;

enum Any<T: Sc> {
    Tree(k::Chain<T>),
    Serial(k::SerialChain<T>),
}
impl<T: Sc> Any<T> {
    fn chain(&self) -> &k::Chain<T> {
        match self {
            Any::Tree(c) => c,
            Any::Serial(c) => c,
        }
    }
    fn twin(&self) -> Any<T> {
        match self {
            Any::Tree(c) => Any::Tree(c.clone()),
            Any::Serial(c) => Any::Serial(c.clone()),
        }
    }
}

/// Everything visible of the nodes of a chain, relations as positions in the chain
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    snap: Snap,
    parent: Option<usize>,
    children: Vec<usize>,
    leader: Option<usize>,
    world: Option<[u64; 7]>,
    elements: Vec<Option<[u64; 7]>>,
}

fn seen<T: Sc>(nodes: &[k::Node<T>], chain: &k::Chain<T>) -> Result<Vec<Seen>, String> {
    let at = |n: &k::Node<T>| nodes.iter().position(|x| x == n);
    let it: Vec<&k::Node<T>> = chain.iter().collect();
    if it.len() != nodes.len() || it.iter().zip(nodes).any(|(a, b)| *a != b) {
        return Err("the nodes of the chain changed".into());
    }
    Ok(nodes
        .iter()
        .map(|n| {
            let mut elements = vec![];
            if let Some(l) = n.link().as_ref() {
                let b = |w: &Option<k::nalgebra::Isometry3<T>>| w.as_ref().map(iso_bits);
                elements.push(b(l.inertial.world_transform()));
                elements.extend(l.visuals.iter().map(|v| b(v.world_transform())));
                elements.extend(l.collisions.iter().map(|v| b(v.world_transform())));
            }
            // guards must not live longer than needed
            let children: Vec<usize> = n.children().iter().filter_map(at).collect();
            Seen {
                snap: snap(n),
                parent: n.parent().and_then(|p| at(&p)),
                children,
                leader: n.mimic_parent().and_then(|p| at(&p)),
                world: n.world_transform().as_ref().map(iso_bits),
                elements,
            }
        })
        .collect())
}

fn near<T: Sc>(a: &[u64; 7], b: &[u64; 7], scale: f64) -> bool {
    let (a, b) = (T::from_bits7(a), T::from_bits7(b));
    let tol = 1e3 * T::EPS * (1.0 + scale);
    let d: f64 = (0..3).map(|i| (a[i] - b[i]).abs()).fold(0.0, f64::max);
    let same_sign = (3..7).map(|i| (a[i] - b[i]).abs()).fold(0.0, f64::max);
    let other_sign = (3..7).map(|i| (a[i] + b[i]).abs()).fold(0.0, f64::max);
    d <= tol && same_sign.min(other_sign) <= 1e3 * T::EPS
}

/// the sides agree, transforms up to rounding
fn agree<T: Sc>(o: &[Seen], c: &[Seen], caches: bool, what: &str) -> Res {
    ensure!(o.len() == c.len(), "{what}: {} nodes instead of {}", c.len(), o.len());
    let scale: f64 = o
        .iter()
        .map(|s| T::from_bits7(&s.snap.origin)[..3].iter().map(|x| x.abs()).sum::<f64>() + s.snap.pos.map(|p| T::from_bits1(p).abs()).unwrap_or(0.0))
        .sum();
    for (i, (a, b)) in o.iter().zip(c).enumerate() {
        ensure!(a.snap == b.snap, "{what}: node {i} is {:?} in the clone instead of {:?}", b.snap, a.snap);
        ensure!(a.parent == b.parent, "{what}: node {i} has the parent {:?} in the clone instead of {:?}", b.parent, a.parent);
        ensure!(a.children == b.children, "{what}: node {i} has the children {:?} in the clone instead of {:?}", b.children, a.children);
        ensure!(a.leader == b.leader, "{what}: node {i} follows {:?} in the clone instead of {:?}", b.leader, a.leader);
        if caches {
            match (&a.world, &b.world) {
                (None, None) => {}
                (Some(x), Some(y)) if near::<T>(x, y, scale) => {}
                (x, y) => return Err(format!("{what}: node {i} has the transform {:?} in the clone instead of {:?}", y.map(|y| T::from_bits7(&y)), x.map(|x| T::from_bits7(&x)))),
            }
        }
    }
    Ok(())
}

/// What the ops need to know about a side
struct Side<'a, T: Sc> {
    any: &'a Any<T>,
    nodes: Vec<k::Node<T>>,
    /// attached by the history
    extra: Vec<k::Node<T>>,
}

fn apply<T: Sc>(op: &Op, s: &mut Side<T>) -> String {
    let n = s.nodes.len();
    let ch = s.any.chain();
    let lim = |i: usize| s.nodes[i].joint().limits.map(|l| (l.min.d(), l.max.d()));
    match op {
        Op::Set(i, v) => {
            let i = pick(*i, n);
            let v = v.finite(lim(i));
            // the error tells what it is about
            format!("{:?}", s.nodes[i].set_joint_position(v).map_err(|e| e.to_string()))
        }
        Op::SetUnchecked(i, v) => {
            let i = pick(*i, n);
            let v = v.finite(lim(i));
            s.nodes[i].set_joint_position_unchecked(v);
            String::new()
        }
        Op::SetClamped(i, v) => {
            let i = pick(*i, n);
            let v = v.finite(lim(i));
            s.nodes[i].set_joint_position_clamped(v);
            String::new()
        }
        Op::Positions(how, vals) => {
            let idx: Vec<usize> = (0..n).filter(|i| s.nodes[*i].joint().is_movable()).collect();
            let q: Vec<T> = idx.iter().enumerate().map(|(k, i)| vals[k % vals.len()].finite(lim(*i))).collect();
            match how {
                0 => format!("{:?}", ch.set_joint_positions(&q).map_err(|e| e.to_string())),
                1 => {
                    ch.set_joint_positions_clamped(&q);
                    String::new()
                }
                _ => {
                    ch.set_joint_positions_unchecked(&q);
                    String::new()
                }
            }
        }
        Op::Origin(i, p) => {
            s.nodes[pick(*i, n)].set_origin(pose_na(p));
            String::new()
        }
        Op::Link(i, l) => {
            s.nodes[pick(*i, n)].set_link(l.as_ref().map(|l| link_na(l, false)));
            String::new()
        }
        Op::Update => {
            ch.update_transforms();
            String::new()
        }
        Op::Links => {
            ch.update_link_transforms();
            String::new()
        }
        Op::Velocities => {
            ch.update_velocities();
            String::new()
        }
        Op::Retarget(f, t) => {
            let mov: Vec<usize> = (0..n).filter(|i| s.nodes[*i].joint().is_movable()).collect();
            if mov.len() > 1 {
                let f = mov[pick(*f, mov.len())];
                let l = mov[pick(t.sel, mov.len())];
                // no cycles
                let mut x = Some(s.nodes[l].clone());
                let mut fine = true;
                while let Some(y) = x {
                    fine &= y != s.nodes[f];
                    x = y.mimic_parent();
                }
                if fine {
                    s.nodes[f].set_mimic_parent(&s.nodes[l], k::joint::Mimic::new(T::f(t.mult.0), T::f(t.off.0)));
                }
            }
            String::new()
        }
        Op::Attach(p, x) => {
            let mut x = x.clone();
            x.mimic = None;
            let t = TreeSpec {
                f32: false,
                nodes: vec![x.clone()],
            };
            let node = k::Node::new(build_joint::<T>(&x, &Model::new::<T>(&t), 0));
            node.set_parent(&s.nodes[pick(*p, n)]);
            s.extra.push(node);
            String::new()
        }
        Op::Move(i, p) => {
            let (c, p) = (pick(*i, n), pick(*p, n));
            // neither the root nor below itself
            let mut x = Some(s.nodes[p].clone());
            // the nodes of the chain must stay in an order in which parents come first
            let mut fine = c != 0 && p < c;
            while let Some(y) = x {
                fine &= y != s.nodes[c];
                x = y.parent();
            }
            if fine && s.nodes[c].parent().as_ref() != Some(&s.nodes[p]) {
                s.nodes[c].set_parent(&s.nodes[p]);
            }
            String::new()
        }
    }
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = Model::new::<T>(&case.tree);
    // all chains start at the root
    let (any, b) = {
        let b = Built::<T>::new(&case.tree, &m);
        let any = if case.serial {
            let s = ChainSel { kind: 1, ..case.sel.clone() };
            Any::Serial(s.serial(&m, &b))
        } else {
            match case.sel.resolve(&m) {
                Sel::Root | Sel::Sub(_) => Any::Tree(k::Chain::from_root(b.nodes[0].clone())),
                Sel::End(e) => Any::Tree(k::Chain::from_end(&b.nodes[e])),
                Sel::Between(e, _) => Any::Tree(k::Chain::from_end_to_root(&b.nodes[e], &b.nodes[0])),
            }
        };
        (any, b)
    };
    let idx = b.indices(any.chain())?;
    if case.tree.nodes.len() < 3 {
        let none = k::Chain::<T>::from_nodes(vec![]).clone();
        ensure!(none.iter().count() == 0 && none.dof() == 0 && none.joint_positions().is_empty(), "the clone of an empty chain is {none}");
    }
    let mut o = Side {
        nodes: any.chain().iter().cloned().collect(),
        any: &any,
        extra: vec![],
    };
    for op in &case.before {
        if !matches!(op, Op::Move(..)) {
            apply::<T>(op, &mut o);
        }
    }
    // what the model has to know about the history before the clone
    for (j, i) in idx.iter().enumerate() {
        m.pos[*i] = o.nodes[j].joint_position().map(|p| p.d()).unwrap_or(0.0);
        m.origin[*i] = iso(&o.nodes[j].origin());
    }
    let before = seen(&o.nodes, any.chain())?;
    let twin = any.twin();
    let mut c = Side {
        nodes: twin.chain().iter().cloned().collect(),
        any: &twin,
        extra: vec![],
    };
    ensure!(seen(&o.nodes, any.chain())? == before, "cloning changed the original");
    for n in &c.nodes {
        ensure!(!b.nodes.contains(n), "the clone shares a node with the original");
    }
    let sc = seen(&c.nodes, twin.chain())?;
    agree::<T>(&before, &sc, true, "cloned")?;
    ensure!(twin.chain().dof() == any.chain().dof(), "dof {} instead of {}", twin.chain().dof(), any.chain().dof());
    let bits = |c: &k::Chain<T>| c.joint_positions().iter().map(|x| x.bits()).collect::<Vec<_>>();
    ensure!(bits(twin.chain()) == bits(any.chain()), "position vector {:?} instead of {:?}", twin.chain().joint_positions(), any.chain().joint_positions());
    ensure!(twin.chain().to_string() == any.chain().to_string(), "printed as\n{}instead of\n{}", twin.chain(), any.chain());
    let w = twin.chain().update_transforms();
    ensure!(w.len() == idx.len(), "{} transforms for {} nodes", w.len(), idx.len());
    for (j, i) in idx.iter().enumerate() {
        let p = m.path(*i);
        close(&w[j], &m.product(&p), m.tol(&p)).map_err(|e| format!("transform {j} of the clone: {e}"))?;
    }
    if let (Any::Serial(a), Any::Serial(b)) = (&any, &twin) {
        let (x, y) = (a.end_transform(), b.end_transform());
        let p = m.path(*idx.last().unwrap());
        let t = m.tol(&p);
        let d = iso(&x);
        ensure!(vdiff(d.t, iso(&y).t) <= 2.0 * t.1 && mdiff(&d.r, &iso(&y).r) <= 8.0 * t.0, "end transform {:?} instead of {:?}", iso(&y), d);
    }
    any.chain().update_transforms();

    // relations to joints outside of the chain are not part of the clone
    let closed = (0..m.n).all(|i| match b.nodes[i].mimic_parent() {
        Some(l) => idx.contains(&i) == b.index(&l).map(|l| idx.contains(&l)).unwrap_or(false) || !m.movable(i),
        None => true,
    }) && idx.len() == m.n;
    let mut diverged = !closed;
    let (mut one_sided, mut both, mut last) = (0, 0, (seen(&o.nodes, any.chain())?, seen(&c.nodes, twin.chain())?));
    for (step, (who, op)) in case.ops.iter().enumerate() {
        let e = |s: String| format!("step {step} {who:?} {op:?}: {s}");
        match who {
            Who::Original => {
                apply::<T>(op, &mut o);
                diverged = true;
                one_sided += 1;
                let now = seen(&c.nodes, twin.chain()).map_err(e)?;
                for (i, (x, y)) in last.1.iter().zip(&now).enumerate() {
                    ensure!(x == y, "{}", e(format!("node {i} of the clone changed from {x:?} to {y:?}")));
                }
            }
            Who::Clone => {
                apply::<T>(op, &mut c);
                diverged = true;
                one_sided += 1;
                let now = seen(&o.nodes, any.chain()).map_err(e)?;
                for (i, (x, y)) in last.0.iter().zip(&now).enumerate() {
                    ensure!(x == y, "{}", e(format!("node {i} of the original changed from {x:?} to {y:?}")));
                }
            }
            Who::Both => {
                let x = apply::<T>(op, &mut o);
                let y = apply::<T>(op, &mut c);
                if !diverged {
                    both += 1;
                    ensure!(x == y, "{}", e(format!("result {y} instead of {x}")));
                    let (so, sc) = (seen(&o.nodes, any.chain()).map_err(e)?, seen(&c.nodes, twin.chain()).map_err(e)?);
                    agree::<T>(&so, &sc, true, &e("same call on both".into()))?;
                }
            }
        }
        last = (seen(&o.nodes, any.chain()).map_err(e)?, seen(&c.nodes, twin.chain()).map_err(e)?);
    }
    let mimics = last.0.iter().filter(|s| s.leader.is_some()).count();
    let branch = before.iter().any(|s| s.children.len() > 1);
    ctx.label(T::NAME);
    ctx.label_if(case.serial, "serial");
    ctx.label_if(branch, "branched");
    ctx.label_if(mimics > 0, "with followers");
    ctx.label_if(one_sided > 0, "one side changed");
    ctx.label_if(both > 0, "same calls on both");
    ctx.label_if(idx.len() < m.n, "part of a tree");
    ctx.nontrivial = idx.len() > 1 && one_sided + both > 0;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C10";
    const RULE: &'static str = "random tree with links and followers, a chain from the root (whole tree, path, serial), changes before cloning, then a history of changes (positions, origins, links, updates, mimic and tree relations) of the clone, the original or both; non-trivial: several nodes and a change after cloning";
    const ASSUME: &'static [&'static str] = &[
        "the chain starts at a root (cloning others is asserted against)",
        "the same calls are compared on chains which contain whole trees and mimic relations",
    ];
    const QUICK: u64 = 130_000;
    const THOROUGH: u64 = 3_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let n = any::<u16>;
        let mk = move || {
            let vs = || val_sel(false, true);
            prop_oneof![
                3 => (n(), vs()).prop_map(|(a, b)| Op::Set(a, b)),
                1 => (n(), vs()).prop_map(|(a, b)| Op::SetUnchecked(a, b)),
                1 => (n(), vs()).prop_map(|(a, b)| Op::SetClamped(a, b)),
                3 => (0u8..3, vec(vs(), 1..6)).prop_map(|(a, b)| Op::Positions(a, b)),
                2 => (n(), pose()).prop_map(|(a, b)| Op::Origin(a, b)),
                2 => (n(), prop::option::of(link(any_name()))).prop_map(|(a, b)| Op::Link(a, b)),
                2 => Just(Op::Update),
                1 => Just(Op::Links),
                1 => Just(Op::Velocities),
                2 => (n(), (n(), multiplier(), offset())).prop_map(|(a, (sel, mult, off))| Op::Retarget(a, MimicSpec { sel, mult, off })),
                1 => (n(), node(Cfg::BASE)).prop_map(|(a, b)| Op::Attach(a, b)),
                1 => (n(), n()).prop_map(|(a, b)| Op::Move(a, b)),
            ]
        };
        let who = prop_oneof![3 => Just(Who::Both), 1 => Just(Who::Original), 1 => Just(Who::Clone)];
        let t = tree(Cfg {
            links: true,
            mimics: 0.3,
            any_names: true,
            max: 8,
            ..Cfg::BASE
        });
        (t, chain_sel(), prop::bool::weighted(0.25), vec(mk(), 0..4), vec((who, mk()), 0..8))
            .prop_map(|(tree, mut sel, serial, before, ops)| {
                if sel.kind == 3 {
                    sel.kind = 0;
                }
                Case {
                    tree,
                    sel,
                    serial,
                    before,
                    ops,
                }
            })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
