//! Builders
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use k::link::*;
use k::nalgebra as na;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    Name(String),
    /// kind and axis
    Type(u8, [F; 3]),
    Limits(Option<(F, F)>),
    Origin(PoseSpec),
    Translation([F; 3]),
    Rotation([F; 3]),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum LinkCall {
    Name(String),
    Inertial(PoseSpec, F, [F; 6]),
    Visual(ElemSpec),
    Collision(ElemSpec),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub f32: bool,
    /// calls of the builders of several nodes
    pub nodes: Vec<(Vec<Call>, u8)>,
    pub link: Vec<LinkCall>,
    /// from default() instead of new()
    pub default: bool,
    /// of ranges
    pub bounds: Vec<(F, F, F)>,
    pub iso: ([F; 3], [F; 3]),
}

pub struct P;

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    ctx.label(T::NAME);
    // ranges
    for (a, b, v) in &case.bounds {
        let (a, b, v) = (T::f(a.0), T::f(b.0), T::f(v.0));
        let r = quiet(|| k::joint::Range::new(a, b));
        let r2 = quiet(|| k::joint::Range::from(a..=b));
        ensure!(r.is_some() == (a <= b) && r2.is_some() == (a <= b), "a range from {a:?} to {b:?}: created {}, from a Rust range {}", r.is_some(), r2.is_some());
        ctx.label_if(r.is_none(), "range refused");
        for r in [r, r2].into_iter().flatten() {
            ensure!(r.min.bits() == a.bits() && r.max.bits() == b.bits(), "the range from {a:?} to {b:?} is {r:?}");
            for v in [v, a, b, (a + b) * T::f(0.5)] {
                let (inside, c) = (a <= v && v <= b, r.clamp(v));
                ensure!(r.is_valid(v) == inside, "{v:?} in {r:?}: {}", r.is_valid(v));
                if !v.d().is_nan() {
                    let want = if v < a { a } else if v > b { b } else { v };
                    ensure!(c == want, "{v:?} clamped into {r:?} is {c:?}");
                }
            }
        }
    }

    // nodes
    let mut nodes = vec![];
    for (calls, end) in &case.nodes {
        let mut b = if case.default { k::NodeBuilder::<T>::default() } else { k::NodeBuilder::new() };
        let (mut name, mut ty, mut lim) = (String::new(), k::JointType::Fixed, None);
        let mut origin = na::Isometry3::<T>::identity();
        for c in calls {
            b = match c {
                Call::Name(n) => {
                    name = n.clone();
                    b.name(n)
                }
                Call::Type(kind, axis) => {
                    ty = joint_type(*kind, axis);
                    b.joint_type(ty)
                }
                Call::Limits(l) => {
                    lim = l.map(|(a, b)| (T::f(a.0), T::f(b.0)));
                    b.limits(lim.map(|(a, b)| k::joint::Range::new(a, b)))
                }
                Call::Origin(p) => {
                    origin = pose_na(p);
                    b.origin(origin)
                }
                Call::Translation(t) => {
                    origin.translation = na::Translation3::new(T::f(t[0].0), T::f(t[1].0), T::f(t[2].0));
                    b.translation(origin.translation)
                }
                Call::Rotation(r) => {
                    origin.rotation = na::UnitQuaternion::from_euler_angles(T::f(r[0].0), T::f(r[1].0), T::f(r[2].0));
                    b.rotation(origin.rotation)
                }
            };
        }
        let n: k::Node<T> = match end % 4 {
            0 => b.into_node(),
            1 => b.finalize().into(),
            2 => k::Node::new(b.finalize()),
            // by hand
            _ => {
                let mut j = k::Joint::new(&name, ty);
                j.limits = lim.map(|(a, b)| k::joint::Range::new(a, b));
                j.set_origin(origin);
                j.into()
            }
        };
        {
            let e = |w: String| format!("after {calls:?}: {w}");
            let j = n.joint();
            ensure!(j.name == name, "{}", e(format!("the name is {:?}", j.name)));
            ensure!(kind_string(&j.joint_type) == kind_string(&ty), "{}", e(format!("the type is {:?}", j.joint_type)));
            let l = j.limits.map(|l| (l.min.bits(), l.max.bits()));
            ensure!(l == lim.map(|(a, b)| (a.bits(), b.bits())), "{}", e(format!("the limits are {:?}", j.limits)));
            ensure!(iso_bits(j.origin()) == iso_bits(&origin), "{}", e(format!("the origin is {:?}", j.origin())));
            let zero = if matches!(ty, k::JointType::Fixed) { None } else { Some(0.0) };
            ensure!(j.joint_position().map(|p| p.d()) == zero && j.joint_velocity().map(|p| p.d()) == zero, "{}", e(format!("position {:?}, velocity {:?}", j.joint_position(), j.joint_velocity())));
            ensure!(j.is_movable() == zero.is_some(), "{}", e(format!("movable: {}", j.is_movable())));
            ensure!(j.world_transform().is_none() && j.world_velocity().is_none(), "{}", e("it has a world transform or velocity".into()));
        }
        ensure!(iso_bits(&n.origin()) == iso_bits(&origin), "the origin of the node is {:?}", n.origin());
        ensure!(n.parent().is_none() && n.children().is_empty() && n.mimic_parent().is_none() && n.link().is_none(), "a new node has relations or a link");
        ensure!(n.is_root() && n.is_end(), "a new node is not a root and an end");
        nodes.push(n);
    }
    // the macro
    let names = |v: Vec<k::Node<T>>| v.iter().map(|n| nodes.iter().position(|x| x == n)).collect::<Vec<_>>();
    match &nodes[..] {
        [a, b] => {
            k::connect![a => b];
        }
        [a, b, c] => {
            k::connect![a => b => c];
        }
        [a, b, c, d] => {
            k::connect![a => b => c => d];
        }
        [a, b, c, d, e, ..] => {
            k::connect![a => b => c => d => e];
        }
        _ => {}
    }
    let n = nodes.len().min(5);
    for i in 0..nodes.len() {
        let (p, ch) = if i < n { (i.checked_sub(1), if i + 1 < n { vec![Some(i + 1)] } else { vec![] }) } else { (None, vec![]) };
        ensure!(names(nodes[i].parent().into_iter().collect()).first().copied().flatten() == p, "connected {n} nodes, the parent of node {i} is {:?}", nodes[i].parent().map(|n| n.to_string()));
        ensure!(names(nodes[i].children().clone()) == ch, "connected {n} nodes, the children of node {i} are {:?}", names(nodes[i].children().clone()));
    }

    // links
    let mut b = if case.default { LinkBuilder::<T>::default() } else { LinkBuilder::new() };
    let mut want = Link::<T>::default();
    ensure!(want.name.is_empty() && want.visuals.is_empty() && want.collisions.is_empty() && want.inertial.mass == T::f(0.0), "the default link is {want:?}");
    for c in &case.link {
        b = match c {
            LinkCall::Name(n) => {
                want.name = n.clone();
                b.name(n)
            }
            LinkCall::Inertial(p, m, i) => {
                let i = i.map(|x| T::f(x.0));
                let mat = na::Matrix3::new(i[0], i[1], i[2], i[1], i[3], i[4], i[2], i[4], i[5]);
                let x = Inertial::new(pose_na(p), T::f(m.0), mat);
                ensure!(iso_bits(x.origin()) == iso_bits(&pose_na::<T>(p)) && x.mass == T::f(m.0) && x.inertia == mat, "the inertial is {x:?}");
                ensure!(x.world_transform().is_none(), "a new inertial has a world transform");
                want.inertial = x.clone();
                b.inertial(x)
            }
            LinkCall::Visual(e) => {
                let v = Visual::new(e.name.clone().unwrap_or_default(), opt_pose(&e.origin), geo_na(&e.geo), mat_na(&e.mat));
                ensure!(v.name == e.name.clone().unwrap_or_default() && iso_bits(v.origin()) == iso_bits(&opt_pose::<T>(&e.origin)) && v.world_transform().is_none(), "the visual is {v:?}");
                want.visuals.push(v.clone());
                b.add_visual(v)
            }
            LinkCall::Collision(e) => {
                let v = Collision::new(e.name.clone().unwrap_or_default(), opt_pose(&e.origin), geo_na(&e.geo));
                ensure!(v.name == e.name.clone().unwrap_or_default() && iso_bits(v.origin()) == iso_bits(&opt_pose::<T>(&e.origin)) && v.world_transform().is_none(), "the collision is {v:?}");
                want.collisions.push(v.clone());
                b.add_collision(v)
            }
        };
    }
    let l = b.finalize();
    ensure!(link_string(&l) == link_string(&want), "the link is {} instead of {}", link_string(&l), link_string(&want));
    let absent = l.inertial.world_transform().is_none() && l.visuals.iter().all(|v| v.world_transform().is_none()) && l.collisions.iter().all(|v| v.world_transform().is_none());
    ensure!(absent, "an element of a new link has a world transform");
    {
        let m = T::f(case.iso.0[0].0);
        let x = Inertial::<T>::from_mass(m);
        let ok = x.mass.bits() == m.bits() && iso_bits(x.origin()) == iso_bits(&na::Isometry3::<T>::identity()) && x.inertia == na::Matrix3::<T>::identity() && x.world_transform().is_none();
        ensure!(ok, "the inertial of mass {m:?} is {x:?}");
        use k::joint::Velocity;
        let z = na::Vector3::<T>::zeros();
        for v in [Velocity::new(), Velocity::zero(), Velocity::default()] {
            ensure!(v.translation == z && v.rotation == z, "a new velocity is {v:?}");
        }
        let (t, r) = (case.iso.0.map(|v| T::f(v.0)).into(), case.iso.1.map(|v| T::f(v.0)).into());
        let v = Velocity::from_parts(t, r);
        ensure!(v.translation == t && v.rotation == r, "the velocity of {t:?} and {r:?} is {v:?}");
        let m = k::joint::Mimic::new(t[0], t[1]);
        let (p, want) = (m.mimic_position(r[0]).d(), r[0].d() * t[0].d() + t[1].d());
        ensure!(m.multiplier == t[0] && m.origin == t[1], "the mimic of {t:?} is {m:?}");
        ensure!((p - want).abs() <= 4.0 * T::EPS * ((r[0].d() * t[0].d()).abs() + t[1].d().abs()), "the position {:?} is mimicked at {p:?} by {m:?}", r[0]);
        ensure!(Texture::default().filename.is_empty(), "the default texture is {:?}", Texture::default());
    }
    // the link of a node
    if let Some(n) = nodes.first() {
        let before = snap(n);
        n.set_link(Some(l.clone()));
        let s = n.link().as_ref().map(link_string);
        ensure!(s == Some(link_string(&want)), "the link of the node is {s:?}");
        n.set_link(None);
        ensure!(snap(n) == before, "setting a link and removing it changed {before:?} to {:?}", snap(n));
    }

    // poses of URDF
    let (x, r) = (case.iso.0.map(|v| v.0), case.iso.1.map(|v| v.0));
    let pose = urdf_rs::Pose {
        xyz: x,
        rpy: r,
    };
    let got = k::urdf::isometry_from::<T>(&pose);
    let want = crate::math::Iso {
        r: crate::math::rpy(r),
        t: x.map(|v| T::f(v).d()),
    };
    close(&got, &want, (8.0 * T::EPS, 0.0)).map_err(|e| format!("the pose of xyz {x:?}, rpy {r:?}: {e}"))?;
    ensure!(k::urdf::translation_from::<T>(&x) == got.translation && k::urdf::quaternion_from::<T>(&r) == got.rotation, "parts of the pose of {x:?}, {r:?}");
    ctx.label_if(case.nodes.iter().any(|n| n.0.len() > 3), "many calls");
    ctx.nontrivial = case.nodes.iter().any(|n| n.0.len() >= 2) && case.link.len() >= 2;
    Ok(())
}

/// None if it panics
fn quiet<X>(f: impl FnOnce() -> X) -> Option<X> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C28";
    const RULE: &'static str = "random sequences of builder calls (each of them any number of times, in any order) for up to five nodes and a link, connected by the macro; ranges with ordered, equal, reversed, infinite and NaN bounds; poses of URDF; everything which the result shows is compared; non-trivial: at least two calls for a node and for the link";
    const ASSUME: &'static [&'static str] = &["a range whose lower bound is not less than or equal to the upper one is refused by a panic, as documented in its code"];
    const QUICK: u64 = 500_000;
    const THOROUGH: u64 = 5_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let x = || [coord(), coord(), coord()];
        let a = || [angle(), angle(), angle()];
        let b = || prop_oneof![4 => f(-3.0..3.0f64), 1 => position(), 1 => prop::sample::select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -1.0]).prop_map(F)];
        let lim = prop::option::weighted(0.7, (-3.0..3.0f64, prop_oneof![1 => Just(0.0), 4 => 0.0..3.0f64, 1 => Just(f64::INFINITY)])).prop_map(|l| l.map(|(a, w)| (F(a), F(a + w))));
        let call = prop_oneof![
            any_name().prop_map(Call::Name),
            (0u8..3, axis()).prop_map(|(k, a)| Call::Type(k, a)),
            lim.prop_map(Call::Limits),
            pose().prop_map(Call::Origin),
            x().prop_map(Call::Translation),
            a().prop_map(Call::Rotation),
        ];
        let i6 = || [coord(), coord(), coord(), coord(), coord(), coord()];
        let link = prop_oneof![
            1 => any_name().prop_map(LinkCall::Name),
            1 => (pose(), mass(), i6()).prop_map(|(p, m, i)| LinkCall::Inertial(p, m, i)),
            2 => elem(true).prop_map(LinkCall::Visual),
            2 => elem(false).prop_map(LinkCall::Collision),
        ];
        (any::<bool>(), vec((vec(call, 0..8), any::<u8>()), 1..6), vec(link, 0..8), any::<bool>(), vec((b(), b(), b()), 1..4), (x(), a()))
            .prop_map(|(f32, nodes, link, default, bounds, iso)| Case {
                f32,
                nodes,
                link,
                default,
                bounds,
                iso,
            })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.f32, run, case, ctx)
    }
}
