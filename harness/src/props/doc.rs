//! URDF documents: generator, text, and what they mean (independent of urdf-rs and the library)
use crate::math::*;
use crate::num::*;
use crate::spec::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UPose {
    pub xyz: Option<[F; 3]>,
    pub rpy: Option<[F; 3]>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UElem {
    pub name: Option<String>,
    pub origin: Option<UPose>,
    pub geo: GeoSpec,
    pub mat: Option<MatSpec>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UInertial {
    pub origin: Option<UPose>,
    pub mass: F,
    pub inertia: [F; 6],
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ULink {
    pub inertial: Option<UInertial>,
    pub visuals: Vec<UElem>,
    pub collisions: Vec<UElem>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UMimic {
    pub sel: u16,
    pub mult: Option<F>,
    pub off: Option<F>,
}

pub const TYPES: [&str; 7] = ["fixed", "revolute", "prismatic", "continuous", "floating", "planar", "spherical"];

/// a joint and its child link
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UJoint {
    /// small: the link of the joint before, large: any earlier link
    pub parent: u16,
    pub name: u8,
    pub kind: u8,
    pub axis: Option<[F; 3]>,
    pub origin: Option<UPose>,
    pub limit: Option<(Option<F>, Option<F>)>,
    pub mkey: u8,
    pub mimic: Option<UMimic>,
    pub extra: u8,
    pub link: ULink,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Doc {
    pub f32: bool,
    pub base: ULink,
    pub base_name: u8,
    pub joints: Vec<UJoint>,
    /// places of joints and links in the document
    pub jorder: Vec<u8>,
    pub lorder: Vec<u8>,
    /// chooses notations
    pub style: u64,
}

// ---------------------------------------------------------------- generators

fn triple() -> BoxedStrategy<[F; 3]> {
    prop_oneof![
        6 => [coord(), coord(), coord()],
        1 => Just([F(0.0); 3]),
    ]
    .boxed()
}

pub fn upose() -> BoxedStrategy<UPose> {
    let a = || prop_oneof![8 => [angle(), angle(), angle()], 1 => Just([F(0.0); 3])];
    (prop::option::weighted(0.85, triple()), prop::option::weighted(0.85, a())).prop_map(|(xyz, rpy)| UPose { xyz, rpy }).boxed()
}

fn text() -> BoxedStrategy<String> {
    prop_oneof![
        40 => "[a-zA-Z][a-zA-Z0-9_]{0,7}",
        1 => ("[a-zA-Z]{1,3}", 5usize..100).prop_map(|(s, n)| s.repeat(n)),
        10 => prop::sample::select(vec!["a b", "関節", "x/y.z", "0", "ü-1", "package://x/y"]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}

fn uelem(m: bool) -> BoxedStrategy<UElem> {
    let mat = (text(), prop::option::of(prop::array::uniform4(color())), prop::option::of(text())).prop_map(|(name, color, texture)| MatSpec { name, color, texture });
    (
        prop::option::of(text()),
        prop::option::weighted(0.8, upose()),
        geo(),
        if m { prop::option::weighted(0.6, mat).boxed() } else { Just(None).boxed() },
    )
        .prop_map(|(name, origin, geo, mat)| UElem { name, origin, geo, mat })
        .boxed()
}

pub fn ulink(data: bool) -> BoxedStrategy<ULink> {
    if !data {
        return Just(ULink {
            inertial: None,
            visuals: vec![],
            collisions: vec![],
        })
        .boxed();
    }
    let x = || inertia();
    let inertial =
        (prop::option::weighted(0.8, upose()), mass(), [x(), x(), x(), x(), x(), x()]).prop_map(|(origin, mass, inertia)| UInertial { origin, mass, inertia });
    (prop::option::weighted(0.7, inertial), vec(uelem(true), 0..=3), vec(uelem(false), 0..=3))
        .prop_map(|(inertial, visuals, collisions)| ULink {
            inertial,
            visuals,
            collisions,
        })
        .boxed()
}

fn ulimit() -> BoxedStrategy<Option<(Option<F>, Option<F>)>> {
    let pi = std::f64::consts::PI;
    prop_oneof![
        3 => Just(None),
        6 => (-4.0..4.0f64, 0.001..6.0f64).prop_map(|(a, w)| Some((Some(F(a)), Some(F(a + w))))),
        1 => (wide(-1.0, 3.0), wide(0.0, 3.0)).prop_map(|(a, w)| Some((Some(F(a.0)), Some(F(a.0 + w.0.abs()))))),
        1 => (-4.0..4.0f64).prop_map(|a| Some((Some(F(a)), Some(F(a))))),
        // any width, also a few roundings
        2 => (-4.0..4.0f64, -17.0..0.0f64).prop_map(|(a, w)| Some((Some(F(a)), Some(F(a + 10f64.powf(w)))))),
        1 => (-9.0..0.0f64).prop_map(|w| Some((Some(F(0.0)), Some(F(10f64.powf(w)))))),
        1 => Just(Some((None, None))),
        1 => (0.001..6.0f64).prop_map(|a| Some((None, Some(F(a))))),
        1 => (0.001..6.0f64).prop_map(|a| Some((Some(F(-a)), None))),
        1 => Just(Some((Some(F(0.0)), Some(F(0.0))))),
        1 => Just(Some((Some(F(-pi)), Some(F(pi))))),
        1 => Just(Some((Some(F(-1e30)), Some(F(1e30))))),
    ]
    .boxed()
}

fn ujoint(mimics: f64, data: bool) -> BoxedStrategy<UJoint> {
    let mimic = (
        any::<u16>(),
        prop::option::weighted(0.7, multiplier()),
        prop::option::weighted(0.7, offset()),
    )
        .prop_map(|(sel, mult, off)| UMimic { sel, mult, off });
    (
        (prop_oneof![3 => Just(0u16), 2 => 40000u16..=65535], any::<u8>(), prop_oneof![2 => 0u8..7, 3 => 1u8..4]),
        (prop::option::weighted(0.85, axis()), prop::option::weighted(0.85, upose()), ulimit()),
        (any::<u8>(), prop::option::weighted(mimics, mimic), any::<u8>(), ulink(data)),
    )
        .prop_map(|((parent, name, kind), (axis, origin, limit), (mkey, mimic, extra, link))| UJoint {
            parent,
            name,
            kind,
            axis,
            origin,
            limit,
            mkey,
            mimic,
            extra,
            link,
        })
        .boxed()
}

pub fn doc(max: usize, mimics: f64, data: bool) -> BoxedStrategy<Doc> {
    let ord = move |n: usize| prop_oneof![1 => Just(vec![]), 3 => vec(any::<u8>(), n)];
    let j = ujoint(mimics, data);
    // many joints, made of few different ones
    let large = (vec(j.clone(), 1..=5), 9usize..=40, 0u8..4, any::<u64>()).prop_map(|(few, n, shape, seed)| {
        let mut x = seed | 1;
        (0..n)
            .map(|i| {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                let mut s = few[i % few.len()].clone();
                s.mkey = x as u8;
                s.name = (x >> 8) as u8;
                if let Some(m) = &mut s.mimic {
                    m.sel = (x >> 16) as u16;
                }
                let one = || {
                    let (i, t) = (i + 1, (seed % 4) as usize % (i + 1));
                    (40000 + (t + i - 40000 % i) % i) as u16
                };
                s.parent = match shape {
                    0 => 0,
                    1 => one(),
                    2 if (x >> 32) % 3 > 0 => one(),
                    2 => 0,
                    _ => s.parent,
                };
                s
            })
            .collect::<Vec<_>>()
    });
    (
        prop::bool::weighted(0.35),
        (ulink(data), any::<u8>()),
        prop_oneof![300 => vec(j.clone(), 0..=4), 700 => vec(j, 0..=max), 10 => large],
        ord(max),
        ord(max + 1),
        prop_oneof![1 => Just(0u64), 6 => any::<u64>()],
    )
        .prop_map(|(f32, (base, base_name), joints, jorder, lorder, style)| Doc {
            f32,
            base,
            base_name,
            joints,
            jorder,
            lorder,
            style,
        })
        .boxed()
}

// ---------------------------------------------------------------- meaning

/// names that differ little
fn nearly(s: &str, i: usize) -> String {
    let g = i / 6;
    match i % 6 {
        0 => format!("{s}{g}"),
        1 => format!("{s}{g} "),
        2 => format!(" {s}{g}"),
        3 => format!("{}{g}", s.to_uppercase()),
        4 => format!("{s}{g}_"),
        _ => format!("{s}0{g}"),
    }
}

impl Doc {
    pub fn n(&self) -> usize {
        self.joints.len()
    }
    /// index of the parent link; link 0 is the base, link i + 1 the child of joint i
    pub fn parent(&self, i: usize) -> usize {
        if self.joints[i].parent < 40000 {
            i
        } else {
            self.joints[i].parent as usize % (i + 1)
        }
    }
    pub fn jname(&self, i: usize) -> String {
        match self.joints[i].name % 16 {
            0 => format!("joint {i}"),
            1 => format!("関節{i}"),
            2 => format!("{i}"),
            3 => format!("root{i}"),
            4 => format!("x{i}"),
            5 => format!("a.b/c-{i}"),
            6 => format!("{i}_joint"),
            7..=9 => nearly("joint_", i),
            10 => format!("{}{i}", "long_joint_name_".repeat(1 + i % 12)),
            _ => format!("joint{i}"),
        }
    }
    pub fn lname(&self, l: usize) -> String {
        let s = if l == 0 { self.base_name } else { self.joints[l - 1].name / 16 };
        match s % 16 {
            0 => format!("link {l}"),
            1 => format!("リンク{l}"),
            2 => format!("{l}"),
            // also names of joints
            3 => "root".to_string() + &if l == 0 { String::new() } else { format!("{l}") },
            4 => format!("x{l}"),
            5 => format!("joint{l}"),
            6..=8 => nearly("link_", l),
            _ => format!("link{l}"),
        }
    }
    pub fn link(&self, l: usize) -> &ULink {
        if l == 0 {
            &self.base
        } else {
            &self.joints[l - 1].link
        }
    }
    pub fn kind(&self, i: usize) -> Kind {
        match self.joints[i].kind % 7 {
            1 | 3 => Kind::Rot,
            2 => Kind::Lin,
            _ => Kind::Fixed,
        }
    }
    /// limits are written for revolute and prismatic joints; a continuous one has no position limits
    pub fn limit_written(&self, i: usize) -> Option<(Option<F>, Option<F>)> {
        match self.joints[i].kind % 7 {
            1 | 2 => self.joints[i].limit,
            3 => self.joints[i].limit.map(|_| (None, None)),
            _ => None,
        }
    }
    pub fn limits<T: Sc>(&self, i: usize) -> Option<(f64, f64)> {
        let (a, b) = self.limit_written(i)?;
        let z = |x: Option<F>| x.map(|v| v.0).unwrap_or(0.0);
        if z(a) == z(b) {
            None
        } else {
            Some((T::f(z(a)).d(), T::f(z(b)).d()))
        }
    }
    /// leader, multiplier and offset
    pub fn leader(&self, i: usize) -> Option<(usize, f64, f64)> {
        let m = self.joints[i].mimic.as_ref()?;
        if self.kind(i) == Kind::Fixed {
            return None;
        }
        let c: Vec<usize> = (0..self.n())
            .filter(|j| self.kind(*j) != Kind::Fixed && (self.joints[*j].mkey, *j) < (self.joints[i].mkey, i))
            .collect();
        if c.is_empty() {
            return None;
        }
        Some((c[pick(m.sel, c.len())], m.mult.map(|x| x.0).unwrap_or(1.0), m.off.map(|x| x.0).unwrap_or(0.0)))
    }
    pub fn axis<T: Sc>(&self, i: usize) -> V3 {
        unit(self.joints[i].axis.unwrap_or([F(1.0), F(0.0), F(0.0)]).map(|x| T::f(x.0).d()))
    }
    pub fn jorder(&self) -> Vec<usize> {
        order(self.n(), &self.jorder)
    }
    pub fn lorder(&self) -> Vec<usize> {
        order(self.n() + 1, &self.lorder)
    }
    /// links from the base to the parent link of joint i, as joints
    pub fn path(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        loop {
            let p = self.parent(*v.last().unwrap());
            if p == 0 {
                break;
            }
            v.push(p - 1);
        }
        v.reverse();
        v
    }
}

fn order(n: usize, keys: &[u8]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    v.sort_by_key(|i| (keys.get(*i).copied().unwrap_or(0), *i));
    v
}

pub fn upose_iso<T: Sc>(p: &Option<UPose>) -> Iso {
    let z = [F(0.0); 3];
    let (x, r) = match p {
        Some(p) => (p.xyz.unwrap_or(z), p.rpy.unwrap_or(z)),
        None => (z, z),
    };
    Iso {
        r: rpy(r.map(|v| v.0)),
        t: x.map(|v| T::f(v.0).d()),
    }
}

// ---------------------------------------------------------------- text

struct Style {
    s: u64,
}
impl Style {
    fn next(&mut self, n: u64) -> u64 {
        if self.s == 0 {
            return 0;
        }
        self.s ^= self.s << 13;
        self.s ^= self.s >> 7;
        self.s ^= self.s << 17;
        (self.s >> 33) % n
    }
    /// notations of exactly the same number
    fn num(&mut self, x: F) -> String {
        let x = x.0;
        let p = format!("{x}");
        match self.next(8) {
            1 => format!("{x:e}"),
            2 => format!("{x:E}"),
            3 => format!("{x:?}"),
            4 if !p.starts_with('-') => format!("+{p}"),
            5 if p.starts_with("0.") => p[1..].to_string(),
            5 if !p.contains('.') => format!("{p}."),
            6 if p.contains('.') => format!("{p}000"),
            7 if !p.starts_with('-') => format!("0{p}"),
            _ => p,
        }
    }
    fn nums(&mut self, v: &[F]) -> String {
        let mut s = String::new();
        if self.next(6) == 1 {
            s.push(' ');
        }
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                s += if self.next(6) == 1 { "   " } else { " " };
            }
            s += &self.num(*x);
        }
        if self.next(6) == 1 {
            s.push(' ');
        }
        s
    }
    fn shuffle<X>(&mut self, v: &mut [X]) {
        for i in (1..v.len()).rev() {
            let j = self.next(i as u64 + 1) as usize;
            if self.s != 0 {
                v.swap(i, j);
            }
        }
    }
    fn el(&mut self, name: &str, mut attrs: Vec<(&str, String)>, children: Vec<String>) -> String {
        self.shuffle(&mut attrs);
        let mut s = format!("<{name}");
        for (k, v) in attrs {
            let q = if self.next(4) == 1 { '\'' } else { '"' };
            s += [" ", "  ", "\n "][self.next(3) as usize];
            s += &format!("{k}={q}{v}{q}");
        }
        if children.is_empty() {
            s += ["/>", " />", "></X>"][self.next(3) as usize].replace('X', name).as_str();
            return s;
        }
        s += ">";
        for c in children {
            s += ["", "\n  ", " <!-- a <comment/> -->\n"][self.next(3) as usize];
            s += &c;
        }
        s + &format!("\n</{name}>")
    }
    fn pose(&mut self, p: &Option<UPose>) -> Vec<String> {
        let Some(p) = p else { return vec![] };
        let mut a = vec![];
        if let Some(x) = p.xyz {
            a.push(("xyz", self.nums(&x)));
        }
        if let Some(x) = p.rpy {
            a.push(("rpy", self.nums(&x)));
        }
        vec![self.el("origin", a, vec![])]
    }
    fn geo(&mut self, g: &GeoSpec) -> String {
        let e = match g {
            GeoSpec::Box(s) => {
                let v = self.nums(s);
                self.el("box", vec![("size", v)], vec![])
            }
            GeoSpec::Cylinder(r, l) | GeoSpec::Capsule(r, l) => {
                let a = vec![("radius", self.num(*r)), ("length", self.num(*l))];
                self.el(if matches!(g, GeoSpec::Cylinder(..)) { "cylinder" } else { "capsule" }, a, vec![])
            }
            GeoSpec::Sphere(r) => {
                let v = self.num(*r);
                self.el("sphere", vec![("radius", v)], vec![])
            }
            GeoSpec::Mesh(n, s) => {
                let mut a = vec![("filename", n.clone())];
                if let Some(s) = s {
                    a.push(("scale", self.nums(s)));
                }
                self.el("mesh", a, vec![])
            }
        };
        self.el("geometry", vec![], vec![e])
    }
    fn mat(&mut self, m: &MatSpec) -> String {
        let mut c = vec![];
        if let Some(x) = &m.color {
            let v = self.nums(x);
            c.push(self.el("color", vec![("rgba", v)], vec![]));
        }
        if let Some(x) = &m.texture {
            c.push(self.el("texture", vec![("filename", x.clone())], vec![]));
        }
        self.shuffle(&mut c);
        self.el("material", vec![("name", m.name.clone())], c)
    }
    fn elem(&mut self, tag: &str, e: &UElem) -> String {
        let mut c = self.pose(&e.origin);
        c.push(self.geo(&e.geo));
        if let Some(m) = &e.mat {
            c.push(self.mat(m));
        }
        self.shuffle(&mut c);
        let a = e.name.iter().map(|n| ("name", n.clone())).collect();
        self.el(tag, a, c)
    }
    fn link(&mut self, name: String, l: &ULink) -> String {
        let mut c: Vec<String> = vec![];
        // the reader wants the visuals in a row, so the inertial goes first or last
        let mut inertial = vec![];
        if let Some(i) = &l.inertial {
            let mut k = self.pose(&i.origin);
            let m = self.num(i.mass);
            k.push(self.el("mass", vec![("value", m)], vec![]));
            let names = ["ixx", "ixy", "ixz", "iyy", "iyz", "izz"];
            let a = (0..6).map(|j| (names[j], self.num(i.inertia[j]))).collect();
            k.push(self.el("inertia", a, vec![]));
            self.shuffle(&mut k);
            inertial.push(self.el("inertial", vec![], k));
        }
        let last = self.next(2) == 1;
        if !last {
            c.append(&mut inertial);
        }
        let v: Vec<String> = l.visuals.iter().map(|e| self.elem("visual", e)).collect();
        let w: Vec<String> = l.collisions.iter().map(|e| self.elem("collision", e)).collect();
        // visuals and collisions in any mixture, each in their order
        let (mut v, mut w) = (v.into_iter().peekable(), w.into_iter().peekable());
        while v.peek().is_some() || w.peek().is_some() {
            let first = if v.peek().is_none() {
                false
            } else {
                w.peek().is_none() || self.next(3) < 2
            };
            c.extend(if first { v.next() } else { w.next() });
        }
        c.append(&mut inertial);
        self.el("link", vec![("name", name)], c)
    }
}

impl Doc {
    fn joint_text(&self, s: &mut Style, i: usize) -> String {
        let j = &self.joints[i];
        let mut c = s.pose(&j.origin);
        let (p, l) = (self.lname(self.parent(i)), self.lname(i + 1));
        c.push(s.el("parent", vec![("link", p)], vec![]));
        c.push(s.el("child", vec![("link", l)], vec![]));
        if let Some(a) = j.axis {
            let v = s.nums(&a);
            c.push(s.el("axis", vec![("xyz", v)], vec![]));
        }
        if let Some((lo, hi)) = self.limit_written(i) {
            let mut a = vec![("effort", s.num(F(100.0))), ("velocity", s.num(F(0.5)))];
            if let Some(x) = lo {
                a.push(("lower", s.num(x)));
            }
            if let Some(x) = hi {
                a.push(("upper", s.num(x)));
            }
            c.push(s.el("limit", a, vec![]));
        }
        if let Some((k, _, _)) = self.leader(i) {
            let m = j.mimic.as_ref().unwrap();
            let mut a = vec![("joint", self.jname(k))];
            if let Some(x) = m.mult {
                a.push(("multiplier", s.num(x)));
            }
            if let Some(x) = m.off {
                a.push(("offset", s.num(x)));
            }
            c.push(s.el("mimic", a, vec![]));
        }
        if j.extra % 5 == 1 {
            c.push(s.el("dynamics", vec![("damping", "0.25".into()), ("friction", "3".into())], vec![]));
        }
        if j.extra % 7 == 1 {
            c.push(s.el("safety_controller", vec![("k_velocity", "10".into()), ("soft_lower_limit", "-0.1".into()), ("soft_upper_limit", "0.1".into())], vec![]));
        }
        s.shuffle(&mut c);
        s.el("joint", vec![("name", self.jname(i)), ("type", TYPES[j.kind as usize % 7].to_string())], c)
    }
    pub fn text(&self) -> String {
        let mut s = Style { s: self.style };
        let mut links: Vec<String> = self.lorder().into_iter().map(|l| s.link(self.lname(l), self.link(l))).collect();
        let mut joints: Vec<String> = self.jorder().into_iter().map(|i| self.joint_text(&mut s, i)).collect();
        // links and joints in any mixture, and elements which do not matter
        links.reverse();
        joints.reverse();
        let mode = s.next(3);
        let mut c = vec![];
        while !links.is_empty() || !joints.is_empty() {
            let link = if links.is_empty() {
                false
            } else if joints.is_empty() {
                true
            } else {
                match mode {
                    0 => true,
                    1 => false,
                    _ => s.next(2) == 0,
                }
            };
            c.extend(if link { links.pop() } else { joints.pop() });
            if s.next(12) == 1 {
                c.push("<gazebo reference=\"link1\"><material>Gazebo/Red</material></gazebo>".into());
            }
            if s.next(12) == 1 {
                c.push("<material name=\"red\"><color rgba=\"1 0 0 1\"/></material>".into());
            }
        }
        if c.is_empty() {
            c.push("<!-- nothing -->".into());
        }
        let head = ["", "<?xml version=\"1.0\"?>\n", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<!-- a robot -->\n"][s.next(3) as usize];
        head.to_string() + &s.el("robot", vec![("name", "r".into())], c) + ["", "\n"][s.next(2) as usize]
    }
    pub fn parse(&self) -> Result<urdf_rs::Robot, String> {
        let t = self.text();
        urdf_rs::read_from_string(&t).map_err(|e| format!("harness: the document is not read: {e}\n{t}"))
    }
}
