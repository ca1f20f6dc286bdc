//! Arms, targets and solvers for the checks of inverse kinematics
use crate::math::*;
use crate::num::*;
use crate::spec::*;
use k::nalgebra as na;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ArmSpec {
    /// the first `len` nodes are a path, the others hang on anything
    pub tree: TreeSpec,
    pub len: usize,
    /// the first node of the arm
    pub start: usize,
}

impl ArmSpec {
    pub fn path(&self) -> Vec<usize> {
        let end = self.len.clamp(1, self.tree.nodes.len());
        (self.start.min(end - 1)..end).collect()
    }
    /// the ends of the arm are what `model` says, so the specification must be serial up to `len`
    pub fn fixed(&self) -> TreeSpec {
        let mut t = self.tree.clone();
        for n in t.nodes.iter_mut().take(self.len) {
            n.parent = 0;
        }
        t
    }
    pub fn arm<T: Sc>(&self, b: &Built<T>) -> k::SerialChain<T> {
        let p = self.path();
        k::SerialChain::from_end_to_root(&b.nodes[*p.last().unwrap()], &b.nodes[p[0]])
    }
}

#[derive(Clone, Copy)]
pub struct ArmCfg {
    pub limits: bool,
    /// narrow ranges and starts at the limits
    pub tight: bool,
    pub mimics: bool,
    pub max_len: usize,
    /// probability of f32
    pub f32: f64,
}

pub fn arm_node(c: ArmCfg) -> BoxedStrategy<NodeSpec> {
    let kind = prop_oneof![9 => Just(1u8), 2 => Just(2u8), 1 => Just(0u8)];
    let ax = prop_oneof![3 => principal_axis(), 2 => oblique_axis()];
    let x = || prop_oneof![2 => f(-0.6..0.6f64), 1 => Just(F(0.0))].boxed();
    let origin = prop_oneof![
        3 => [x(), x(), x()].prop_map(|xyz| PoseSpec { xyz, rpy: [F(0.0); 3] }),
        2 => ([x(), x(), x()], [angle(), angle(), angle()]).prop_map(|(xyz, rpy)| PoseSpec { xyz, rpy }),
    ];
    // lower and upper distance of the limits from the position
    let w = || prop_oneof![3 => f(0.5..4.0f64), if c.tight { 2 } else { 0 } => f(0.0..0.3f64), if c.tight { 1 } else { 0 } => Just(F(0.0)), 1 => Just(F(f64::INFINITY))];
    let lim = if c.limits {
        prop::option::weighted(0.6, (w(), w())).boxed()
    } else {
        Just(None).boxed()
    };
    let mimic = if c.mimics {
        prop::option::weighted(
            0.1,
            (any::<u16>(), multiplier(), f(-1.0..1.0f64)).prop_map(|(sel, mult, off)| MimicSpec { sel, mult, off }),
        )
        .boxed()
    } else {
        Just(None).boxed()
    };
    let pos = prop_oneof![5 => f(-1.6..1.6f64), 1 => Just(F(0.0))];
    ((kind, ax, origin), (lim, pos, 0u8..4, any::<u8>()), (any::<u8>(), mimic))
        .prop_map(|((kind, axis, origin), (lim, pos, build, attach), (mkey, mimic))| NodeSpec {
            parent: 0,
            attach,
            name: None,
            kind,
            axis,
            origin,
            limits: lim.map(|(a, b)| (F(pos.0 - a.0), F(pos.0 + b.0))),
            pos,
            vel: F(0.0),
            build,
            link: None,
            mkey,
            mimic,
        })
        .boxed()
}

pub fn arm(c: ArmCfg) -> BoxedStrategy<ArmSpec> {
    (prop::bool::weighted(c.f32), prop_oneof![60 => vec(arm_node(c), 1..=c.max_len), 1 => vec(arm_node(c), c.max_len..=c.max_len * 3)], vec((arm_node(c), 40000u16..=65535), 0..3), prop_oneof![2 => Just(0usize), 1 => 0usize..3])
        .prop_map(|(f32, mut nodes, side, start)| {
            let len = nodes.len();
            nodes.extend(side.into_iter().map(|(mut n, p)| {
                n.parent = p;
                n
            }));
            ArmSpec {
                tree: TreeSpec { f32, nodes },
                len,
                start: start.min(len - 1),
            }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Target {
    /// the pose at other positions: differences of the joints
    Reach(Vec<F>),
    /// current pose, moved and turned in its frame
    Near(PoseSpec),
    Far(PoseSpec),
    /// the current pose with one of its 7 numbers replaced
    Weird(u8, F),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum NameSel {
    Arm(u16),
    Any(u16),
    Text(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Objective {
    Constant(Vec<F>),
    /// reference positions and weights
    Reference(Vec<F>, Vec<F>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IkSpec {
    pub dist: F,
    pub angle: F,
    pub mult: F,
    pub tries: usize,
    pub mask: [bool; 6],
    pub ignored: Vec<NameSel>,
    pub target: Target,
    pub objective: Option<Objective>,
}

pub fn mask() -> BoxedStrategy<[bool; 6]> {
    prop_oneof![
        3 => Just([true; 6]),
        2 => Just([true, true, true, false, false, false]),
        1 => Just([false, false, false, true, true, true]),
        4 => any::<[bool; 6]>(),
        1 => Just([false; 6]),
    ]
    .boxed()
}

pub fn target(weird: u32) -> BoxedStrategy<Target> {
    let small = |r: f64| [f(-r..r), f(-r..r), f(-r..r)];
    let w = prop::sample::select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e30, -1e30, 1e300, 1e-300, 1e15]);
    prop_oneof![
        4 => vec(f(-0.3..0.3f64), 1..8).prop_map(Target::Reach),
        2 => vec(f(-2.0..2.0f64), 1..8).prop_map(Target::Reach),
        1 => Just(Target::Reach(vec![F(0.0)])),
        3 => (small(0.2), small(0.3)).prop_map(|(xyz, rpy)| Target::Near(PoseSpec { xyz, rpy })),
        2 => pose().prop_map(Target::Far),
        weird => (0u8..7, w.prop_map(F)).prop_map(|(i, x)| Target::Weird(i, x)),
    ]
    .boxed()
}

pub fn objective() -> BoxedStrategy<Objective> {
    let c = || vec(f(-1.0..1.0f64), 1..12);
    prop_oneof![
        c().prop_map(Objective::Constant),
        (c(), c()).prop_map(|(a, b)| Objective::Reference(a, b)),
    ]
    .boxed()
}

/// also growing, huge and not finite values
pub fn any_objective() -> BoxedStrategy<Objective> {
    let x = || prop_oneof![6 => f(-1.0..1.0f64), 2 => wide(-3.0, 30.0), 1 => prop::sample::select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY]).prop_map(F)];
    let c = move || vec(x(), 1..12);
    prop_oneof![
        30 => objective(),
        1 => c().prop_map(Objective::Constant),
        1 => (c(), c()).prop_map(|(a, b)| Objective::Reference(a, b)),
    ]
    .boxed()
}

pub fn ignored(odd: bool) -> BoxedStrategy<Vec<NameSel>> {
    let one = prop_oneof![
        12 => any::<u16>().prop_map(NameSel::Arm),
        if odd { 1 } else { 0 } => any::<u16>().prop_map(NameSel::Any),
        if odd { 1 } else { 0 } => any_name().prop_map(NameSel::Text),
    ];
    prop_oneof![6 => Just(vec![]), 5 => vec(one.clone(), 1..3), 2 => vec(one.clone(), 2..8), 1 => vec(one, 8..20)].boxed()
}

pub fn ik(weird: u32, odd_names: bool) -> BoxedStrategy<IkSpec> {
    let tol = || prop_oneof![3 => Just(F(1e-3)), 2 => f(1e-5..0.1f64), 1 => f(0.1..3.0f64), 1 => Just(F(1e-6))];
    let mult = prop_oneof![6 => Just(F(0.5)), 6 => Just(F(1.0)), 6 => f(0.05..1.0f64), 1 => f(1.0..2.0f64), 1 => f(0.001..0.05f64)];
    let tries = prop_oneof![10 => Just(0usize), 10 => Just(1usize), 30 => 2usize..12, 40 => 10usize..60, 1 => 60usize..400];
    (tol(), tol(), mult, tries, mask(), ignored(odd_names), target(weird), prop::option::weighted(0.35, any_objective()))
        .prop_map(|(dist, angle, mult, tries, mask, ignored, target, objective)| IkSpec {
            dist,
            angle,
            mult,
            tries,
            mask,
            ignored,
            target,
            objective,
        })
        .boxed()
}

/// An arm of a built robot with what the oracle knows of it
pub struct Rig<T: Sc> {
    pub m: Model,
    pub b: Built<T>,
    pub arm: k::SerialChain<T>,
    pub path: Vec<usize>,
    pub mov: Vec<usize>,
}

impl<T: Sc> Rig<T> {
    pub fn new(a: &ArmSpec) -> Result<Rig<T>, String> {
        let t = a.fixed();
        let m = Model::new::<T>(&t);
        let b = Built::<T>::new(&t, &m);
        let arm = a.arm(&b);
        let path = b.indices(&arm)?;
        if path != a.path() {
            return Err(format!("the arm consists of {path:?} instead of {:?}", a.path()));
        }
        let mov = path.iter().copied().filter(|i| m.movable(*i)).collect();
        Ok(Rig { m, b, arm, path, mov })
    }
    pub fn names(&self, sel: &[NameSel]) -> Vec<String> {
        sel.iter()
            .filter_map(|s| match s {
                NameSel::Arm(k) => {
                    if self.mov.is_empty() {
                        None
                    } else {
                        Some(self.m.name[self.mov[pick(*k, self.mov.len())]].clone())
                    }
                }
                NameSel::Any(k) => Some(self.m.name[pick(*k, self.m.n)].clone()),
                NameSel::Text(t) => Some(t.clone()),
            })
            .collect()
    }
    /// positions in `mov` of the ignored joints (each once) and the names which are not those of movable joints of the arm
    pub fn ignored(&self, names: &[String]) -> (Vec<usize>, Vec<String>) {
        let (mut v, mut bad) = (vec![], vec![]);
        for n in names {
            match self.mov.iter().position(|i| self.m.name[*i] == *n) {
                Some(k) => {
                    if !v.contains(&k) {
                        v.push(k)
                    }
                }
                None => bad.push(n.clone()),
            }
        }
        v.sort_unstable();
        (v, bad)
    }
    pub fn constraints(&self, s: &IkSpec) -> k::Constraints {
        let mut c = k::Constraints::default();
        (c.position_x, c.position_y, c.position_z) = (s.mask[0], s.mask[1], s.mask[2]);
        (c.rotation_x, c.rotation_y, c.rotation_z) = (s.mask[3], s.mask[4], s.mask[5]);
        c.ignored_joint_names = self.names(&s.ignored);
        c
    }
    pub fn target(&self, t: &Target, ignored: &[usize]) -> na::Isometry3<T> {
        let now = self.m.product(&self.path);
        match t {
            Target::Reach(d) => {
                let mut m = self.m.clone();
                for (k, i) in self.mov.iter().enumerate() {
                    if !d.is_empty() && !ignored.contains(&k) {
                        let v = m.pos[*i] + d[k % d.len()].0;
                        m.pos[*i] = match m.lim[*i] {
                            Some((lo, hi)) => v.max(lo).min(hi),
                            None => v,
                        };
                    }
                }
                to_na(&m.product(&self.path))
            }
            Target::Near(p) => to_na(&now.mul(&pose_iso::<T>(p))),
            Target::Far(p) => pose_na(p),
            Target::Weird(i, x) => {
                let t = to_na::<T>(&now);
                let mut v = [
                    t.translation.vector.x,
                    t.translation.vector.y,
                    t.translation.vector.z,
                    t.rotation.i,
                    t.rotation.j,
                    t.rotation.k,
                    t.rotation.w,
                ];
                v[*i as usize % 7] = T::f(x.0);
                na::Isometry3::from_parts(
                    na::Translation3::new(v[0], v[1], v[2]),
                    na::UnitQuaternion::new_unchecked(na::Quaternion::new(v[6], v[3], v[4], v[5])),
                )
            }
        }
    }
    pub fn reset(&self) {
        for i in 0..self.m.n {
            if self.m.movable(i) {
                self.b.nodes[i].set_joint_position_unchecked(T::f(self.m.pos[i]));
            }
        }
    }
    /// constrained columns of the usable joints
    pub fn jacobian(&self, m: &Model, mask: &[bool; 6], ignored: &[usize]) -> Mat {
        let cols = super::c11::columns(m, &self.path);
        let rows: Vec<usize> = (0..6).filter(|i| mask[*i]).collect();
        let use_: Vec<usize> = (0..cols.len()).filter(|c| !ignored.contains(c)).collect();
        let mut j = Mat::zero(rows.len(), use_.len());
        for (a, r) in rows.iter().enumerate() {
            for (b, c) in use_.iter().enumerate() {
                j.set(a, b, cols[*c][*r]);
            }
        }
        j
    }
}

pub fn to_na<T: Sc>(i: &Iso) -> na::Isometry3<T> {
    let (v, _) = log3(&i.r);
    na::Isometry3::from_parts(
        na::Translation3::new(T::f(i.t[0]), T::f(i.t[1]), T::f(i.t[2])),
        na::UnitQuaternion::from_scaled_axis(na::Vector3::new(T::f(v[0]), T::f(v[1]), T::f(v[2]))),
    )
}

/// full error of six numbers and the angle of the rotation
pub fn pose_error(target: &Iso, now: &Iso) -> ([f64; 6], f64) {
    let d = sub(target.t, now.t);
    let (w, a) = log3(&mm(&target.r, &tr(&now.r)));
    ([d[0], d[1], d[2], w[0], w[1], w[2]], a)
}

/// norms of the constrained position and rotation errors
pub fn norms(e: &[f64; 6], mask: &[bool; 6]) -> (f64, f64) {
    let g = |r: std::ops::Range<usize>| r.filter(|i| mask[*i]).fold(0.0, |n: f64, i| n.hypot(e[i]));
    (g(0..3), g(3..6))
}

pub fn solver<T: Sc>(s: &IkSpec) -> k::JacobianIkSolver<T> {
    k::JacobianIkSolver::new(T::f(s.dist.0), T::f(s.angle.0), T::f(s.mult.0), s.tries)
}

/// value of an objective: computed here, not by the library
pub fn objective_value<T: Sc>(o: &Objective, q: &[T]) -> Vec<T> {
    let at = |v: &[F], i: usize| if v.is_empty() { T::f(0.0) } else { T::f(v[i % v.len()].0) };
    (0..q.len())
        .map(|i| match o {
            Objective::Constant(v) => at(v, i),
            Objective::Reference(r, w) => at(w, i) * (q[i] - at(r, i)),
        })
        .collect()
}

pub fn is_rigid(mask: &[bool; 6]) -> usize {
    mask.iter().filter(|x| **x).count()
}

/// Single iterations, each from the positions which the one before left: any pose within 1e30 is accepted.
/// Positions after each of them, and the error which ended them.
pub fn walk<T: Sc>(rig: &Rig<T>, spec: &IkSpec, target: &na::Isometry3<T>, c: &k::Constraints, max: usize) -> (Vec<Vec<T>>, Option<k::Error>) {
    use k::InverseKinematicsSolver;
    let big = T::f(1e30);
    let mut s = k::JacobianIkSolver::new(big, big, T::f(spec.mult.0), 1);
    if let Some(o) = spec.objective.clone() {
        s.set_nullspace_function(Box::new(move |q| objective_value(&o, q)));
    }
    let mut v = vec![];
    while v.len() < max {
        if let Err(e) = s.solve_with_constraints(&rig.arm, target, c) {
            return (v, Some(e));
        }
        v.push(rig.arm.joint_positions());
    }
    (v, None)
}
