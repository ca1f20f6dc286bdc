//! Links of converted URDF documents
use super::doc::*;
use crate::math::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use k::link::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub doc: Doc,
}

pub struct P;

fn origin<T: Sc>(got: &k::nalgebra::Isometry3<T>, p: &Option<UPose>) -> Res {
    let o = upose_iso::<T>(p);
    close(got, &o, (4.0 * T::EPS, 4.0 * T::EPS * (1.0 + norm(o.t))))
}

fn geometry<T: Sc>(g: &Geometry<T>, s: &GeoSpec) -> bool {
    let q = |x: &T, y: &F| x.bits() == T::f(y.0).bits();
    match (g, s) {
        (Geometry::Box { depth, width, height }, GeoSpec::Box(s)) => q(depth, &s[0]) && q(width, &s[1]) && q(height, &s[2]),
        (Geometry::Cylinder { radius, length }, GeoSpec::Cylinder(r, l)) => q(radius, r) && q(length, l),
        (Geometry::Capsule { radius, length }, GeoSpec::Capsule(r, l)) => q(radius, r) && q(length, l),
        (Geometry::Sphere { radius }, GeoSpec::Sphere(r)) => q(radius, r),
        (Geometry::Mesh { filename, scale }, GeoSpec::Mesh(n, s)) => {
            let s = s.unwrap_or([F(1.0); 3]);
            filename == n && q(&scale.x, &s[0]) && q(&scale.y, &s[1]) && q(&scale.z, &s[2])
        }
        _ => false,
    }
}

fn material<T: Sc>(m: &Material<T>, s: &Option<MatSpec>) -> bool {
    let none = MatSpec {
        name: String::new(),
        color: None,
        texture: None,
    };
    let s = s.as_ref().unwrap_or(&none);
    let c = s.color.unwrap_or([F(0.0); 4]);
    let q = |x: T, y: F| x.d() == T::f(y.0).d();
    m.name == s.name && m.texture.filename == s.texture.clone().unwrap_or_default() && q(m.color.r, c[0]) && q(m.color.g, c[1]) && q(m.color.b, c[2]) && q(m.color.a, c[3])
}

pub fn check_link<T: Sc>(l: &Link<T>, name: &str, s: &ULink) -> Res {
    ensure!(l.name == name, "named {:?}", l.name);
    let zero = UInertial {
        origin: None,
        mass: F(0.0),
        inertia: [F(0.0); 6],
    };
    let i = s.inertial.as_ref().unwrap_or(&zero);
    ensure!(l.inertial.mass.d() == T::f(i.mass.0).d(), "mass {:?} instead of {:?}", l.inertial.mass, i.mass);
    origin(l.inertial.origin(), &i.origin).map_err(|e| format!("inertial origin: {e}"))?;
    let place = [[0, 1, 2], [1, 3, 4], [2, 4, 5]];
    for r in 0..3 {
        for c in 0..3 {
            let (g, w) = (l.inertial.inertia[(r, c)].d(), T::f(i.inertia[place[r][c]].0).d());
            ensure!(g == w, "inertia ({r}, {c}) is {g:?} instead of {w:?}");
        }
    }
    ensure!(l.inertial.world_transform().is_none(), "inertial with world transform");
    ensure!(l.visuals.len() == s.visuals.len(), "{} visuals instead of {}", l.visuals.len(), s.visuals.len());
    ensure!(l.collisions.len() == s.collisions.len(), "{} collisions instead of {}", l.collisions.len(), s.collisions.len());
    for (k, (v, w)) in l.visuals.iter().zip(&s.visuals).enumerate() {
        ensure!(v.name == w.name.clone().unwrap_or_default(), "visual {k} is named {:?} instead of {:?}", v.name, w.name);
        origin(v.origin(), &w.origin).map_err(|e| format!("visual {k}: {e}"))?;
        ensure!(geometry(&v.geometry, &w.geo), "visual {k} has the geometry {:?} instead of {:?}", v.geometry, w.geo);
        ensure!(material(&v.material, &w.mat), "visual {k} has the material {:?} instead of {:?}", v.material, w.mat);
        ensure!(v.world_transform().is_none(), "visual {k} has a world transform");
    }
    for (k, (v, w)) in l.collisions.iter().zip(&s.collisions).enumerate() {
        ensure!(v.name == w.name.clone().unwrap_or_default(), "collision {k} is named {:?} instead of {:?}", v.name, w.name);
        origin(v.origin(), &w.origin).map_err(|e| format!("collision {k}: {e}"))?;
        ensure!(geometry(&v.geometry, &w.geo), "collision {k} has the geometry {:?} instead of {:?}", v.geometry, w.geo);
        ensure!(v.world_transform().is_none(), "collision {k} has a world transform");
    }
    Ok(())
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let d = &case.doc;
    let robot = d.parse()?;
    let c = k::Chain::<T>::from(&robot);
    let mut seen = 0;
    for n in c.iter() {
        let joint = n.joint().name.clone();
        let l = if joint == "root" {
            0
        } else {
            (0..d.n()).find(|i| d.jname(*i) == joint).ok_or_else(|| format!("node {joint:?}"))? + 1
        };
        let link = n.link();
        let Some(link) = &*link else {
            return Err(format!("node {joint:?} has no link"));
        };
        check_link(link, &d.lname(l), d.link(l)).map_err(|e| format!("link {:?} on {joint:?}: {e}", d.lname(l)))?;
        seen += 1;
    }
    ensure!(seen == d.n() + 1, "{seen} links instead of {}", d.n() + 1);
    let mut names: Vec<String> = c.iter_links().map(|l| l.name.clone()).collect();
    let mut want: Vec<String> = (0..=d.n()).map(|l| d.lname(l)).collect();
    names.sort();
    want.sort();
    ensure!(names == want, "links of the chain are {names:?} instead of {want:?}");
    let (mut elems, mut odd) = (0, 0);
    for l in 0..=d.n() {
        let x = d.link(l);
        elems += x.visuals.len() + x.collisions.len();
        odd += x.visuals.iter().chain(&x.collisions).filter(|e| e.origin.is_none() || e.name.is_none()).count();
        ctx.label_if(x.inertial.is_none(), "no inertial");
        ctx.label_if(x.visuals.iter().any(|v| v.mat.is_some()), "material");
        ctx.label_if(x.visuals.iter().chain(&x.collisions).any(|v| matches!(v.geo, GeoSpec::Mesh(_, None))), "default scale");
        ctx.label_if(x.visuals.iter().chain(&x.collisions).any(|v| matches!(v.geo, GeoSpec::Capsule(..))), "capsule");
    }
    ctx.label(T::NAME);
    ctx.label_if(odd > 0, "optional parts absent");
    ctx.nontrivial = elems >= 2;
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C21";
    const RULE: &'static str = "random URDF text with all kinds of link data, read by urdf-rs and converted; every value compared with the document; non-trivial: at least two visuals or collisions";
    const ASSUME: &'static [&'static str] = &["one root link, unique names", "urdf-rs reads numbers and attributes as it documents", "materials are given in the visual itself"];
    const QUICK: u64 = 60_000;
    const THOROUGH: u64 = 1_500_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        doc(5, 0.1, true).prop_map(|doc| Case { doc }).boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.doc.f32, run, case, ctx)
    }
}
