//! Specifications of joint trees: generators, the model (the oracle's view), and building them with the library.
use crate::math::*;
use crate::num::*;
use k::link::*;
use k::nalgebra as na;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- specification

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PoseSpec {
    pub xyz: [F; 3],
    pub rpy: [F; 3],
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum GeoSpec {
    Box([F; 3]),
    Cylinder(F, F),
    Capsule(F, F),
    Sphere(F),
    Mesh(String, Option<[F; 3]>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MatSpec {
    pub name: String,
    pub color: Option<[F; 4]>,
    pub texture: Option<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ElemSpec {
    pub name: Option<String>,
    pub origin: Option<PoseSpec>,
    pub geo: GeoSpec,
    pub mat: Option<MatSpec>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InertialSpec {
    pub origin: Option<PoseSpec>,
    pub mass: F,
    /// xx xy xz yy yz zz
    pub inertia: [F; 6],
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LinkSpec {
    pub name: String,
    pub inertial: Option<InertialSpec>,
    pub visuals: Vec<ElemSpec>,
    pub collisions: Vec<ElemSpec>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MimicSpec {
    pub sel: u16,
    pub mult: F,
    pub off: F,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NodeSpec {
    /// small: the node before, large: any earlier node
    pub parent: u16,
    /// order in which nodes are attached to their parents
    pub attach: u8,
    /// None: a unique name
    pub name: Option<String>,
    /// 0 fixed, 1 rotational, 2 linear
    pub kind: u8,
    pub axis: [F; 3],
    pub origin: PoseSpec,
    pub limits: Option<(F, F)>,
    pub pos: F,
    pub vel: F,
    pub build: u8,
    pub link: Option<LinkSpec>,
    pub mkey: u8,
    pub mimic: Option<MimicSpec>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TreeSpec {
    pub f32: bool,
    pub nodes: Vec<NodeSpec>,
}

// ---------------------------------------------------------------- generators of parts

pub fn f(x: impl Strategy<Value = f64> + 'static) -> BoxedStrategy<F> {
    x.prop_map(F).boxed()
}

/// of any magnitude between powers of ten, and any sign
pub fn wide(from: f64, to: f64) -> BoxedStrategy<F> {
    (from..to, any::<bool>()).prop_map(|(e, neg)| F(10f64.powf(e) * if neg { -1.0 } else { 1.0 })).boxed()
}

pub fn coord() -> BoxedStrategy<F> {
    prop_oneof![
        6 => f(-2.0..2.0f64),
        2 => Just(F(0.0)),
        1 => prop::sample::select(vec![F(1.0), F(-1.0), F(0.5), F(0.1)]),
        1 => wide(-3.0, 3.5),
    ]
    .boxed()
}

pub fn angle() -> BoxedStrategy<F> {
    use std::f64::consts::PI;
    prop_oneof![
        6 => f(-PI..PI),
        4 => Just(F(0.0)),
        1 => f(-20.0..20.0f64),
        2 => prop::sample::select(vec![F(PI / 2.0), F(-PI / 2.0), F(PI), F(-PI), F(1e-4), F(PI / 4.0)]),
    ]
    .boxed()
}

pub fn pose() -> BoxedStrategy<PoseSpec> {
    let z = || [F(0.0), F(0.0), F(0.0)];
    prop_oneof![
        1 => Just(PoseSpec { xyz: z(), rpy: z() }),
        2 => [coord(), coord(), coord()].prop_map(move |xyz| PoseSpec { xyz, rpy: z() }),
        1 => [angle(), angle(), angle()].prop_map(move |rpy| PoseSpec { xyz: z(), rpy }),
        6 => ([coord(), coord(), coord()], [angle(), angle(), angle()]).prop_map(|(xyz, rpy)| PoseSpec { xyz, rpy }),
    ]
    .boxed()
}

pub fn principal_axis() -> BoxedStrategy<[F; 3]> {
    prop::sample::select(vec![
        [F(0.0), F(0.0), F(1.0)],
        [F(0.0), F(1.0), F(0.0)],
        [F(1.0), F(0.0), F(0.0)],
        [F(0.0), F(0.0), F(-1.0)],
        [F(0.0), F(-1.0), F(0.0)],
        [F(-1.0), F(0.0), F(0.0)],
    ])
    .boxed()
}

/// never too short
pub fn oblique_axis() -> BoxedStrategy<[F; 3]> {
    (-1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64)
        .prop_map(|(x, y, z)| {
            if norm([x, y, z]) < 0.2 {
                [F(x + 0.5), F(y + 0.5), F(z + 0.7)]
            } else {
                [F(x), F(y), F(z)]
            }
        })
        .boxed()
}

pub fn axis() -> BoxedStrategy<[F; 3]> {
    prop_oneof![
        4 => principal_axis(),
        5 => oblique_axis(),
        1 => (oblique_axis(), prop::sample::select(vec![1e-3, 7.0, 1e3])).prop_map(|(a, s)| a.map(|x| F(x.0 * s))),
    ]
    .boxed()
}

pub fn position() -> BoxedStrategy<F> {
    use std::f64::consts::PI;
    prop_oneof![
        12 => f(-PI..PI),
        3 => Just(F(0.0)),
        2 => f(-0.01..0.01f64),
        2 => f(-20.0..20.0f64),
        1 => f(-1000.0..1000.0f64),
    ]
    .boxed()
}

/// Any limits: none, usual, one sided, of zero width, tiny, not containing zero
pub fn limits() -> BoxedStrategy<Option<(F, F)>> {
    let inf = f64::INFINITY;
    prop_oneof![
        4 => Just(None),
        4 => (-4.0..4.0f64, 0.0..6.0f64).prop_map(|(a, w)| Some((F(a), F(a + w)))),
        1 => (wide(-1.0, 3.0), wide(0.0, 3.0)).prop_map(|(a, w)| Some((F(a.0), F(a.0 + w.0.abs())))),
        1 => (0.0..4.0f64).prop_map(|a| Some((F(-a), F(a)))),
        1 => (-4.0..4.0f64).prop_map(|a| Some((F(a), F(a)))),
        1 => (-4.0..4.0f64).prop_map(move |a| Some((F(a), F(inf)))),
        1 => (-4.0..4.0f64).prop_map(move |a| Some((F(-inf), F(a)))),
        1 => Just(Some((F(-inf), F(inf)))),
        1 => (-4.0..4.0f64).prop_map(|a| Some((F(a), F(a + 1e-6)))),
        1 => Just(Some((F(0.0), F(0.0)))),
        1 => (0.0..3.0f64).prop_map(|a| Some((F(0.0), F(a)))),
        1 => (0.0..3.0f64).prop_map(|a| Some((F(-a), F(0.0)))),
    ]
    .boxed()
}

/// A value chosen relative to the limits of the joint it is for
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ValSel {
    Abs(F),
    Frac(F),
    Min,
    Max,
    BelowMin,
    AboveMax,
    InsideMin,
    InsideMax,
    Beyond(F),
    Inf,
    NegInf,
    Nan,
}

impl ValSel {
    /// never infinite or NaN
    pub fn finite<T: Sc>(&self, lim: Option<(f64, f64)>) -> T {
        let v: T = self.get(lim);
        if v.d().is_finite() {
            v
        } else {
            ValSel::Frac(F(0.5)).get(lim)
        }
    }
    pub fn get<T: Sc>(&self, lim: Option<(f64, f64)>) -> T {
        let (lo, hi) = lim.unwrap_or((-3.0, 3.0));
        let flo = if lo.is_finite() { lo } else if hi.is_finite() { hi - 3.0 } else { -3.0 };
        let fhi = if hi.is_finite() { hi } else { flo + 3.0 };
        match self {
            ValSel::Abs(x) => T::f(x.0),
            ValSel::Frac(x) => {
                let v = T::f(flo + (fhi - flo) * x.0);
                // rounding must not leave the range
                if v.d() < lo {
                    T::f(lo)
                } else if v.d() > hi {
                    T::f(hi)
                } else {
                    v
                }
            }
            ValSel::Min => T::f(lo),
            ValSel::Max => T::f(hi),
            ValSel::BelowMin => T::f(flo).down(),
            ValSel::AboveMax => T::f(fhi).up(),
            ValSel::InsideMin => T::f(flo).up(),
            ValSel::InsideMax => T::f(fhi).down(),
            ValSel::Beyond(x) => {
                if x.0 < 0.0 {
                    T::f(flo + x.0)
                } else {
                    T::f(fhi + x.0)
                }
            }
            ValSel::Inf => T::f(f64::INFINITY),
            ValSel::NegInf => T::f(f64::NEG_INFINITY),
            ValSel::Nan => T::f(f64::NAN),
        }
    }
}

pub fn val_sel(special: bool, beyond: bool) -> BoxedStrategy<ValSel> {
    let inside = prop_oneof![
        6 => f(0.0..1.0f64).prop_map(ValSel::Frac),
        2 => Just(ValSel::Min),
        2 => Just(ValSel::Max),
    ];
    if !beyond {
        return inside.boxed();
    }
    let outside = prop_oneof![
        3 => f(-5.0..5.0f64).prop_map(ValSel::Abs),
        1 => Just(ValSel::BelowMin),
        1 => Just(ValSel::AboveMax),
        1 => Just(ValSel::InsideMin),
        1 => Just(ValSel::InsideMax),
        1 => f(-3.0..3.0f64).prop_map(ValSel::Beyond),
        1 => Just(ValSel::Abs(F(0.0))),
    ];
    if !special {
        return prop_oneof![3 => inside, 2 => outside].boxed();
    }
    let extreme = prop_oneof![
        1 => Just(ValSel::Inf),
        1 => Just(ValSel::NegInf),
        1 => Just(ValSel::Nan),
        1 => prop::sample::select(vec![1e30, -1e30, 1e-40, -0.0]).prop_map(|x| ValSel::Abs(F(x))),
    ];
    prop_oneof![6 => inside, 5 => outside, 2 => extreme].boxed()
}

pub fn any_name() -> BoxedStrategy<String> {
    prop_oneof![
        30 => prop::sample::select(vec!["", "a", "b", "joint", "root", "j0", "関節", "a b", "ß/x", "J0", "j0 "]).prop_map(|s| s.to_string()),
        10 => "[a-zA-Z0-9_ äé\\-/#.]{0,12}",
        1 => ("[a-zA-Z]{1,3}", 5usize..100).prop_map(|(s, n)| s.repeat(n)),
    ]
    .boxed()
}

fn word() -> BoxedStrategy<String> {
    "[a-zA-Z][a-zA-Z0-9_]{0,7}".boxed()
}

pub fn geo() -> BoxedStrategy<GeoSpec> {
    let p = || prop_oneof![8 => f(0.0..5.0f64), 1 => Just(F(0.0)), 1 => wide(-4.0, 4.0).prop_map(|x| F(x.0.abs()))];
    prop_oneof![
        [p(), p(), p()].prop_map(GeoSpec::Box),
        (p(), p()).prop_map(|(a, b)| GeoSpec::Cylinder(a, b)),
        (p(), p()).prop_map(|(a, b)| GeoSpec::Capsule(a, b)),
        p().prop_map(GeoSpec::Sphere),
        (word(), prop::option::of(prop_oneof![12 => [coord(), coord(), coord()], 1 => Just([F(0.0); 3]), 1 => Just([F(1.0); 3])])).prop_map(|(n, s)| GeoSpec::Mesh(n + ".stl", s)),
    ]
    .boxed()
}

pub fn color() -> BoxedStrategy<F> {
    prop_oneof![10 => f(0.0..1.0f64), 2 => Just(F(0.0)), 2 => Just(F(1.0)), 1 => f(-1.0..300.0f64)].boxed()
}

pub fn mat() -> BoxedStrategy<MatSpec> {
    let c = || color();
    (word(), prop::option::of([c(), c(), c(), c()]), prop::option::of(word()))
        .prop_map(|(name, color, texture)| MatSpec { name, color, texture })
        .boxed()
}

pub fn elem(with_mat: bool) -> BoxedStrategy<ElemSpec> {
    (
        prop::option::of(word()),
        prop::option::weighted(0.8, pose()),
        geo(),
        if with_mat { prop::option::of(mat()).boxed() } else { Just(None).boxed() },
    )
        .prop_map(|(name, origin, geo, mat)| ElemSpec { name, origin, geo, mat })
        .boxed()
}

pub fn mass() -> BoxedStrategy<F> {
    prop_oneof![6 => f(0.01..20.0f64), 2 => Just(F(0.0)), 1 => Just(F(1.0)), 1 => f(1e-4..1e4f64)].boxed()
}

pub fn inertia() -> BoxedStrategy<F> {
    prop_oneof![8 => f(-3.0..3.0f64), 1 => Just(F(0.0)), 1 => wide(-7.0, 4.0)].boxed()
}

pub fn inertial() -> BoxedStrategy<InertialSpec> {
    let m = || inertia();
    (prop::option::weighted(0.8, pose()), mass(), [m(), m(), m(), m(), m(), m()])
        .prop_map(|(origin, mass, inertia)| InertialSpec { origin, mass, inertia })
        .boxed()
}

pub fn link(name: BoxedStrategy<String>) -> BoxedStrategy<LinkSpec> {
    (
        name,
        prop::option::weighted(0.8, inertial()),
        vec(elem(true), 0..=3),
        vec(elem(false), 0..=3),
    )
        .prop_map(|(name, inertial, visuals, collisions)| LinkSpec {
            name,
            inertial,
            visuals,
            collisions,
        })
        .boxed()
}

// ---------------------------------------------------------------- generators of trees

#[derive(Clone, Copy)]
pub struct Cfg {
    pub links: bool,
    /// probability of a node to be a follower
    pub mimics: f64,
    pub limits: bool,
    pub any_names: bool,
    pub serial: bool,
    /// up to about 60 nodes
    pub big: bool,
    pub max: usize,
}
impl Cfg {
    pub const BASE: Cfg = Cfg {
        links: false,
        mimics: 0.0,
        limits: true,
        any_names: false,
        serial: false,
        big: false,
        max: 10,
    };
}

pub fn node(c: Cfg) -> BoxedStrategy<NodeSpec> {
    let parent = if c.serial {
        Just(0u16).boxed()
    } else {
        prop_oneof![3 => Just(0u16), 2 => 40000u16..=65535].boxed()
    };
    let name = if c.any_names {
        prop::option::of(any_name()).boxed()
    } else {
        Just(None).boxed()
    };
    let lim = if c.limits { limits() } else { Just(None).boxed() };
    let link = if c.links {
        prop::option::weighted(0.7, link(any_name())).boxed()
    } else {
        Just(None).boxed()
    };
    let mimic = if c.mimics > 0.0 {
        prop::option::weighted(
            c.mimics,
            (any::<u16>(), multiplier(), offset())
                .prop_map(|(sel, mult, off)| MimicSpec { sel, mult, off }),
        )
        .boxed()
    } else {
        Just(None).boxed()
    };
    (
        (parent, any::<u8>(), name, prop_oneof![2 => Just(0u8), 5 => Just(1u8), 3 => Just(2u8)], axis(), pose()),
        (lim, f(0.0..1.0f64), position(), prop_oneof![2 => Just(F(0.0)), 8 => f(-3.0..3.0f64), 1 => wide(-6.0, 3.0)], 0u8..4, link),
        (any::<u8>(), mimic),
    )
        .prop_map(|((parent, attach, name, kind, axis, origin), (limits, frac, pos, vel, build, link), (mkey, mimic))| {
            // start within the limits (also when rounded to f32)
            let pos = match limits {
                None => pos,
                Some((lo, hi)) => {
                    let v = ValSel::Frac(frac).get::<f64>(Some((lo.0, hi.0)));
                    F(v)
                }
            };
            NodeSpec {
                parent,
                attach,
                name,
                kind,
                axis,
                origin,
                limits,
                pos,
                vel,
                build,
                link,
                mkey,
                mimic,
            }
        })
        .boxed()
}

pub fn offset() -> BoxedStrategy<F> {
    prop_oneof![6 => Just(F(0.0)), 9 => f(-1.0..1.0f64), 1 => wide(-6.0, 2.0)].boxed()
}

pub fn multiplier() -> BoxedStrategy<F> {
    prop_oneof![
        9 => f(-2.0..2.0f64),
        6 => Just(F(1.0)),
        3 => Just(F(-1.0)),
        3 => Just(F(0.0)),
        3 => Just(F(2.0)),
        2 => wide(-5.0, 2.0),
    ]
    .boxed()
}

/// a parent selector of node i that means node t
fn parent_sel(i: usize, t: usize) -> u16 {
    if i == 0 {
        return 40000;
    }
    (40000 + (t + i - 40000 % i) % i) as u16
}

/// many nodes: paths, many children of one node, both; made of few different nodes
fn large(c: Cfg, most: usize) -> BoxedStrategy<Vec<NodeSpec>> {
    let few = vec(node(c), 2..=9);
    let shape = if c.serial { Just(0u8).boxed() } else { (0u8..4).boxed() };
    (few, 12..=most, shape, any::<u64>())
        .prop_map(|(few, n, shape, seed)| {
            let mut x = seed | 1;
            (0..n)
                .map(|i| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    let mut s = few[i % few.len()].clone();
                    s.attach = x as u8;
                    s.mkey = (x >> 8) as u8;
                    if let Some(m) = &mut s.mimic {
                        m.sel = (x >> 16) as u16;
                    }
                    s.parent = match shape {
                        // a path
                        0 => 0,
                        // all below one of the first nodes
                        1 => parent_sel(i, (seed % 4) as usize % i.max(1)),
                        // many below one, each with a path below it
                        2 => {
                            if (x >> 32) % 3 == 0 {
                                0
                            } else {
                                parent_sel(i, (seed % 4) as usize % i.max(1))
                            }
                        }
                        _ => s.parent,
                    };
                    s
                })
                .collect()
        })
        .boxed()
}

pub fn tree(c: Cfg) -> BoxedStrategy<TreeSpec> {
    let n = node(c);
    let nodes = if c.big {
        prop_oneof![
            300 => vec(n.clone(), 1..=4),
            500 => vec(n.clone(), 1..=c.max),
            150 => vec(n.clone(), 1..=24),
            40 => vec(n, 20..=60),
            10 => large(c, 200),
        ]
        .boxed()
    } else {
        prop_oneof![300 => vec(n.clone(), 1..=4), 700 => vec(n, 1..=c.max), 10 => large(c, 40)].boxed()
    };
    (prop::bool::weighted(0.35), nodes).prop_map(|(f32, nodes)| TreeSpec { f32, nodes }).boxed()
}

// ---------------------------------------------------------------- model

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Fixed,
    Rot,
    Lin,
}

/// The oracle's view of a tree. Numbers are what the library got, so rounded to its scalar type.
#[derive(Clone, Debug)]
pub struct Model {
    pub n: usize,
    pub eps: f64,
    pub parent: Vec<Option<usize>>,
    pub children: Vec<Vec<usize>>,
    pub name: Vec<String>,
    pub kind: Vec<Kind>,
    pub axis: Vec<V3>,
    pub origin: Vec<Iso>,
    pub lim: Vec<Option<(f64, f64)>>,
    pub pos: Vec<f64>,
    pub vel: Vec<f64>,
    /// leader, multiplier, offset
    pub leader: Vec<Option<(usize, f64, f64)>>,
}

pub fn pose_iso<T: Sc>(p: &PoseSpec) -> Iso {
    let r = |x: F| T::f(x.0).d();
    Iso {
        r: rpy([r(p.rpy[0]), r(p.rpy[1]), r(p.rpy[2])]),
        t: [r(p.xyz[0]), r(p.xyz[1]), r(p.xyz[2])],
    }
}

pub fn pose_na<T: Sc>(p: &PoseSpec) -> na::Isometry3<T> {
    let r = |x: F| T::f(x.0);
    na::Isometry3::from_parts(
        na::Translation3::new(r(p.xyz[0]), r(p.xyz[1]), r(p.xyz[2])),
        na::UnitQuaternion::from_euler_angles(r(p.rpy[0]), r(p.rpy[1]), r(p.rpy[2])),
    )
}

pub fn pick(sel: u16, n: usize) -> usize {
    (sel as usize * n) >> 16
}

impl Model {
    pub fn new<T: Sc>(s: &TreeSpec) -> Model {
        let n = s.nodes.len();
        let mut m = Model {
            n,
            eps: T::EPS,
            parent: vec![],
            children: vec![vec![]; n],
            name: vec![],
            kind: vec![],
            axis: vec![],
            origin: vec![],
            lim: vec![],
            pos: vec![],
            vel: vec![],
            leader: vec![None; n],
        };
        for (i, x) in s.nodes.iter().enumerate() {
            m.parent.push(if i == 0 {
                None
            } else if x.parent < 40000 {
                Some(i - 1)
            } else {
                Some(x.parent as usize % i)
            });
            m.name.push(x.name.clone().unwrap_or_else(|| format!("j{i}")));
            m.kind.push(match x.kind {
                0 => Kind::Fixed,
                1 => Kind::Rot,
                _ => Kind::Lin,
            });
            m.axis.push(unit(x.axis.map(|v| T::f(v.0).d())));
            m.origin.push(pose_iso::<T>(&x.origin));
            let lim = x.limits.map(|(a, b)| (T::f(a.0).d(), T::f(b.0).d()));
            m.lim.push(lim);
            let p = T::f(x.pos.0).d();
            let p = match lim {
                Some((lo, hi)) => p.max(lo).min(hi),
                None => p,
            };
            m.pos.push(if x.kind == 0 { 0.0 } else { p });
            m.vel.push(if x.kind == 0 { 0.0 } else { T::f(x.vel.0).d() });
        }
        for i in m.attach_order(s) {
            if let Some(p) = m.parent[i] {
                m.children[p].push(i);
            }
        }
        // followers: leaders have smaller keys, so there are no cycles
        for (i, x) in s.nodes.iter().enumerate() {
            if let (Some(mi), true) = (&x.mimic, m.kind[i] != Kind::Fixed) {
                let c: Vec<usize> = (0..n)
                    .filter(|j| m.kind[*j] != Kind::Fixed && (s.nodes[*j].mkey, *j) < (x.mkey, i))
                    .collect();
                if !c.is_empty() {
                    m.leader[i] = Some((c[pick(mi.sel, c.len())], T::f(mi.mult.0).d(), T::f(mi.off.0).d()));
                }
            }
        }
        m
    }
    pub fn attach_order(&self, s: &TreeSpec) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.n).collect();
        v.sort_by_key(|i| (s.nodes[*i].attach, *i));
        v
    }
    pub fn movable(&self, i: usize) -> bool {
        self.kind[i] != Kind::Fixed
    }
    pub fn motion(&self, i: usize) -> Iso {
        match self.kind[i] {
            Kind::Fixed => Iso::ID,
            Kind::Rot => Iso {
                r: axis_angle(self.axis[i], self.pos[i]),
                t: [0.0; 3],
            },
            Kind::Lin => Iso {
                r: I3,
                t: scale(self.axis[i], self.pos[i]),
            },
        }
    }
    pub fn local(&self, i: usize) -> Iso {
        self.origin[i].mul(&self.motion(i))
    }
    /// local transform and its derivative, if the joint moves with the velocity
    pub fn local_dual(&self, i: usize, vel: f64) -> Dual {
        let p = self.motion(i);
        let m = match self.kind[i] {
            Kind::Fixed => Dual::constant(p),
            Kind::Rot => Dual {
                p,
                dr: mscale(&mm(&skew(self.axis[i]), &p.r), vel),
                dt: [0.0; 3],
            },
            Kind::Lin => Dual {
                p,
                dr: Z3,
                dt: scale(self.axis[i], vel),
            },
        };
        Dual::constant(self.origin[i]).mul(&m)
    }
    /// from the root to i, both included
    pub fn path(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        while let Some(p) = self.parent[*v.last().unwrap()] {
            v.push(p);
        }
        v.reverse();
        v
    }
    pub fn world(&self, i: usize) -> Iso {
        self.product(&self.path(i))
    }
    pub fn product(&self, path: &[usize]) -> Iso {
        path.iter().fold(Iso::ID, |a, j| a.mul(&self.local(*j)))
    }
    pub fn worlds(&self) -> Vec<Iso> {
        (0..self.n).map(|i| self.world(i)).collect()
    }
    /// tolerances (rotation, translation) for the product over a path
    pub fn tol(&self, path: &[usize]) -> (f64, f64) {
        let len: f64 = path
            .iter()
            .map(|i| norm(self.origin[*i].t) + if self.kind[*i] == Kind::Lin { self.pos[*i].abs() } else { 0.0 })
            .sum();
        let n = path.len() as f64 + 3.0;
        (16.0 * self.eps * n, 16.0 * self.eps * n * (1.0 + len))
    }
    pub fn subtree(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        let mut k = 0;
        while k < v.len() {
            v.extend(self.children[v[k]].iter());
            k += 1;
        }
        v
    }
    pub fn ends(&self) -> Vec<usize> {
        (0..self.n).filter(|i| self.children[*i].is_empty()).collect()
    }
    /// all direct and indirect followers of i
    pub fn closure(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        let mut k = 0;
        while k < v.len() {
            for j in 0..self.n {
                if self.leader[j].map(|l| l.0) == Some(v[k]) && !v.contains(&j) {
                    v.push(j);
                }
            }
            k += 1;
        }
        v.remove(0);
        v
    }
    pub fn in_limits(&self, i: usize, v: f64) -> bool {
        match self.lim[i] {
            Some((lo, hi)) => v >= lo && v <= hi,
            None => true,
        }
    }
}

// ---------------------------------------------------------------- building

/// keeps all nodes alive
pub struct Built<T: Sc> {
    pub nodes: Vec<k::Node<T>>,
}

pub fn limits_na<T: Sc>(l: Option<(f64, f64)>) -> Option<k::joint::Range<T>> {
    l.map(|(a, b)| (T::f(a)..=T::f(b)).into())
}

pub fn joint_type<T: Sc>(kind: u8, axis: &[F; 3]) -> k::JointType<T> {
    let a = na::Unit::new_normalize(na::Vector3::new(T::f(axis[0].0), T::f(axis[1].0), T::f(axis[2].0)));
    match kind {
        0 => k::JointType::Fixed,
        1 => k::JointType::Rotational { axis: a },
        _ => k::JointType::Linear { axis: a },
    }
}

pub fn build_joint<T: Sc>(x: &NodeSpec, m: &Model, i: usize) -> k::Joint<T> {
    let jt = joint_type::<T>(x.kind, &x.axis);
    let o = pose_na::<T>(&x.origin);
    let lim = limits_na::<T>(m.lim[i]);
    let b = k::NodeBuilder::<T>::new().name(&m.name[i]).joint_type(jt).limits(lim);
    let mut j = match x.build {
        0 => b.translation(o.translation).rotation(o.rotation).finalize(),
        1 => b.origin(o).finalize(),
        2 => {
            let mut j = k::Joint::new(&m.name[i], jt);
            j.limits = lim;
            j.set_origin(o);
            j
        }
        _ => b.rotation(o.rotation).translation(o.translation).finalize(),
    };
    if m.movable(i) {
        j.set_joint_position_unchecked(T::f(m.pos[i]));
        let _ = j.set_joint_velocity(T::f(m.vel[i]));
    }
    j
}

impl<T: Sc> Built<T> {
    pub fn new(s: &TreeSpec, m: &Model) -> Built<T> {
        let nodes: Vec<k::Node<T>> = s
            .nodes
            .iter()
            .enumerate()
            .map(|(i, x)| {
                let j = build_joint::<T>(x, m, i);
                let n: k::Node<T> = if x.build % 2 == 0 { k::Node::new(j) } else { j.into() };
                if let Some(l) = &x.link {
                    n.set_link(Some(link_na::<T>(l, x.build % 2 == 0)));
                }
                n
            })
            .collect();
        for i in m.attach_order(s) {
            if let Some(p) = m.parent[i] {
                nodes[i].set_parent(&nodes[p]);
            }
        }
        for i in 0..m.n {
            if let Some((l, a, b)) = m.leader[i] {
                nodes[i].set_mimic_parent(&nodes[l], k::joint::Mimic::new(T::f(a), T::f(b)));
            }
        }
        Built { nodes }
    }
    pub fn index(&self, n: &k::Node<T>) -> Option<usize> {
        self.nodes.iter().position(|x| x == n)
    }
    /// model indices of the nodes of a chain
    pub fn indices(&self, c: &k::Chain<T>) -> Result<Vec<usize>, String> {
        c.iter()
            .map(|n| self.index(n).ok_or_else(|| "the chain contains an unknown node".to_string()))
            .collect()
    }
    /// what the library reports for every node
    pub fn positions(&self) -> Vec<Option<f64>> {
        self.nodes.iter().map(|n| n.joint_position().map(|p| p.d())).collect()
    }
}

pub fn geo_na<T: Sc>(g: &GeoSpec) -> Geometry<T> {
    let v = |x: &F| T::f(x.0);
    match g {
        GeoSpec::Box(s) => Geometry::Box {
            depth: v(&s[0]),
            width: v(&s[1]),
            height: v(&s[2]),
        },
        GeoSpec::Cylinder(r, l) => Geometry::Cylinder {
            radius: v(r),
            length: v(l),
        },
        GeoSpec::Capsule(r, l) => Geometry::Capsule {
            radius: v(r),
            length: v(l),
        },
        GeoSpec::Sphere(r) => Geometry::Sphere { radius: v(r) },
        GeoSpec::Mesh(n, s) => {
            let s = s.unwrap_or([F(1.0); 3]);
            Geometry::Mesh {
                filename: n.clone(),
                scale: na::Vector3::new(v(&s[0]), v(&s[1]), v(&s[2])),
            }
        }
    }
}

pub fn mat_na<T: Sc>(m: &Option<MatSpec>) -> Material<T> {
    let Some(m) = m else {
        return Material {
            name: String::new(),
            color: color_na(&None),
            texture: Texture { filename: String::new() },
        };
    };
    Material {
        name: m.name.clone(),
        color: color_na(&m.color),
        texture: Texture {
            filename: m.texture.clone().unwrap_or_default(),
        },
    }
}
fn color_na<T: Sc>(c: &Option<[F; 4]>) -> Color<T> {
    let c = c.unwrap_or([F(0.0); 4]);
    Color {
        r: T::f(c[0].0),
        g: T::f(c[1].0),
        b: T::f(c[2].0),
        a: T::f(c[3].0),
    }
}

pub fn opt_pose<T: Sc>(p: &Option<PoseSpec>) -> na::Isometry3<T> {
    p.as_ref().map(pose_na).unwrap_or_else(na::Isometry3::identity)
}

pub fn opt_iso<T: Sc>(p: &Option<PoseSpec>) -> Iso {
    p.as_ref().map(pose_iso::<T>).unwrap_or(Iso::ID)
}

pub fn link_na<T: Sc>(l: &LinkSpec, builder: bool) -> Link<T> {
    let inertial = l.inertial.as_ref().map(|i| {
        let v = |k: usize| T::f(i.inertia[k].0);
        Inertial::new(
            opt_pose(&i.origin),
            T::f(i.mass.0),
            na::Matrix3::new(v(0), v(1), v(2), v(1), v(3), v(4), v(2), v(4), v(5)),
        )
    });
    let vis = l
        .visuals
        .iter()
        .map(|e| Visual::new(e.name.clone().unwrap_or_default(), opt_pose(&e.origin), geo_na(&e.geo), mat_na(&e.mat)));
    let col = l
        .collisions
        .iter()
        .map(|e| Collision::new(e.name.clone().unwrap_or_default(), opt_pose(&e.origin), geo_na(&e.geo)));
    if builder {
        let mut b = LinkBuilder::new().name(&l.name);
        if let Some(i) = inertial {
            b = b.inertial(i);
        }
        for v in vis {
            b = b.add_visual(v);
        }
        for c in col {
            b = b.add_collision(c);
        }
        b.finalize()
    } else {
        let mut x = Link::default();
        x.name = l.name.clone();
        if let Some(i) = inertial {
            x.inertial = i;
        }
        x.visuals = vis.collect();
        x.collisions = col.collect();
        x
    }
}

// ---------------------------------------------------------------- chains over a tree

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChainSel {
    pub kind: u8,
    pub a: u16,
    pub b: u16,
}

pub fn chain_sel() -> BoxedStrategy<ChainSel> {
    (0u8..4, any::<u16>(), any::<u16>()).prop_map(|(kind, a, b)| ChainSel { kind, a, b }).boxed()
}

pub fn serial_sel() -> BoxedStrategy<ChainSel> {
    (1u8..3, any::<u16>(), any::<u16>()).prop_map(|(kind, a, b)| ChainSel { kind, a, b }).boxed()
}

pub enum Sel {
    Root,
    End(usize),
    Between(usize, usize),
    Sub(usize),
}

impl ChainSel {
    /// large selectors of the end prefer the ends of the tree
    pub fn resolve(&self, m: &Model) -> Sel {
        let end = || {
            if self.a >= 16384 {
                let e = m.ends();
                e[pick((self.a - 16384) / 3 * 4, e.len())]
            } else {
                pick(self.a * 4, m.n)
            }
        };
        match self.kind {
            0 => Sel::Root,
            1 => Sel::End(end()),
            2 => {
                let e = end();
                let p = m.path(e);
                Sel::Between(e, p[pick(self.b, p.len())])
            }
            _ => Sel::Sub(pick(self.a, m.n)),
        }
    }
    pub fn chain<T: Sc>(&self, m: &Model, b: &Built<T>) -> k::Chain<T> {
        match self.resolve(m) {
            Sel::Root => k::Chain::from_root(b.nodes[0].clone()),
            Sel::End(e) => k::Chain::from_end(&b.nodes[e]),
            Sel::Between(e, r) => k::Chain::from_end_to_root(&b.nodes[e], &b.nodes[r]),
            Sel::Sub(r) => k::Chain::from_root(b.nodes[r].clone()),
        }
    }
    /// nodes in order of a path, or just the set (parents first) of a tree
    pub fn expected(&self, m: &Model) -> Vec<usize> {
        match self.resolve(m) {
            Sel::Root => m.subtree(0),
            Sel::End(e) => m.path(e),
            Sel::Between(e, r) => {
                let p = m.path(e);
                let k = p.iter().position(|x| *x == r).unwrap();
                p[k..].to_vec()
            }
            Sel::Sub(r) => m.subtree(r),
        }
    }
    pub fn serial<T: Sc>(&self, m: &Model, b: &Built<T>) -> k::SerialChain<T> {
        match self.resolve(m) {
            Sel::Between(e, r) => k::SerialChain::from_end_to_root(&b.nodes[e], &b.nodes[r]),
            Sel::End(e) => k::SerialChain::from_end(&b.nodes[e]),
            _ => panic!("harness: not a serial selection"),
        }
    }
}

// ---------------------------------------------------------------- reading the library's values

pub fn v3<T: Sc>(v: &na::Vector3<T>) -> V3 {
    [v.x.d(), v.y.d(), v.z.d()]
}

/// Rotation matrix of the quaternion, and how far it is from unit length
pub fn rot<T: Sc>(q: &na::UnitQuaternion<T>) -> (M3, f64) {
    let (x, y, z, w) = (q.i.d(), q.j.d(), q.k.d(), q.w.d());
    let n = x * x + y * y + z * z + w * w;
    (
        [
            [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - z * w), 2.0 * (x * z + y * w)],
            [2.0 * (x * y + z * w), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - x * w)],
            [2.0 * (x * z - y * w), 2.0 * (y * z + x * w), 1.0 - 2.0 * (x * x + y * y)],
        ],
        (n - 1.0).abs(),
    )
}

pub fn iso<T: Sc>(i: &na::Isometry3<T>) -> Iso {
    Iso {
        r: rot(&i.rotation).0,
        t: v3(&i.translation.vector),
    }
}

pub fn iso_bits<T: Sc>(i: &na::Isometry3<T>) -> [u64; 7] {
    let q = &i.rotation;
    let t = &i.translation.vector;
    [t.x.bits(), t.y.bits(), t.z.bits(), q.i.bits(), q.j.bits(), q.k.bits(), q.w.bits()]
}

/// Compares a transform of the library with the expected one
pub fn close<T: Sc>(got: &na::Isometry3<T>, want: &Iso, tol: (f64, f64)) -> Result<(), String> {
    let (r, unit_err) = rot(&got.rotation);
    let t = v3(&got.translation.vector);
    let dr = mdiff(&r, &want.r);
    let dt = vdiff(t, want.t);
    if !(unit_err <= 4.0 * tol.0) {
        return Err(format!("rotation is not a unit quaternion: off by {unit_err:e}"));
    }
    if !(dr <= 4.0 * tol.0) || !(dt <= tol.1) {
        return Err(format!(
            "transform is off by {dr:e} (rotation, allowed {:e}) and {dt:e} (translation, allowed {:e}): got {:?} {:?}, want {:?} {:?}",
            4.0 * tol.0,
            tol.1,
            t,
            r,
            want.t,
            want.r
        ));
    }
    Ok(())
}

/// Everything about a node but its transforms
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub name: String,
    pub kind: String,
    pub pos: Option<u64>,
    pub vel: Option<u64>,
    pub limits: Option<(u64, u64)>,
    pub origin: [u64; 7],
    pub link: Option<String>,
}

pub fn kind_string<T: Sc>(t: &k::JointType<T>) -> String {
    match t {
        k::JointType::Fixed => "fixed".into(),
        k::JointType::Rotational { axis } => format!("rot {:?}", v3(axis)),
        k::JointType::Linear { axis } => format!("lin {:?}", v3(axis)),
    }
}

/// all of a link except the cached transforms
pub fn link_string<T: Sc>(l: &Link<T>) -> String {
    let b = |i: &na::Isometry3<T>| format!("{:x?}", iso_bits(i));
    let mut s = format!(
        "{:?} mass {:?} inertia {:?} at {}",
        l.name,
        l.inertial.mass.d(),
        l.inertial.inertia.iter().map(|x| x.d()).collect::<Vec<_>>(),
        b(l.inertial.origin())
    );
    for v in &l.visuals {
        s += &format!(" visual {:?} {:?} {:?} at {}", v.name, v.geometry, v.material, b(v.origin()));
    }
    for v in &l.collisions {
        s += &format!(" collision {:?} {:?} at {}", v.name, v.geometry, b(v.origin()));
    }
    s
}

fn zbits<T: Sc>(x: T) -> u64 {
    // zeros are the same
    if x.d() == 0.0 {
        0
    } else {
        x.bits()
    }
}

pub fn snap<T: Sc>(n: &k::Node<T>) -> Snap {
    let link = n.link().as_ref().map(link_string);
    let j = n.joint();
    Snap {
        name: j.name.clone(),
        kind: kind_string(&j.joint_type),
        pos: j.joint_position().map(zbits),
        vel: j.joint_velocity().map(zbits),
        limits: j.limits.map(|l| (zbits(l.min), zbits(l.max))),
        origin: iso_bits(j.origin()),
        link,
    }
}

pub fn snaps<T: Sc>(nodes: &[k::Node<T>]) -> Vec<Snap> {
    nodes.iter().map(snap).collect()
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}

/// Dispatches to the scalar type of a tree
#[macro_export]
macro_rules! by_scalar {
    ($is32:expr, $f:ident, $($a:expr),*) => {
        if $is32 { $f::<f32>($($a),*) } else { $f::<f64>($($a),*) }
    };
}

/// how often something is repeated: around the sizes at which small counters start again, rarely at larger ones
pub fn times() -> BoxedStrategy<u32> {
    prop_oneof![
        8 => 2u32..20,
        12 => Just(256u32),
        8 => 254u32..259,
        4 => Just(512u32),
        3 => 127u32..130,
        1 => 1000u32..1030,
        1 => 65534u32..65539,
    ]
    .boxed()
}
