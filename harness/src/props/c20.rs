//! Joints of converted URDF documents
use super::doc::*;
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::path::PathBuf;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    /// cut after this part of the text
    Cut(F),
    /// another closing tag
    Tag(F),
    NotUtf8(F),
    Empty,
    Absent,
    Dir,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub doc: Doc,
    pub file: Option<Option<Damage>>,
    pub vals: Vec<F>,
}

pub struct P;

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("kprops-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.0.join("r.urdf"));
        let _ = std::fs::remove_dir(self.0.join("d.urdf"));
        let _ = std::fs::remove_dir(&self.0);
    }
}

/// nodes by name, of which each must be there once
pub fn by_name<T: Sc>(c: &k::Chain<T>) -> Result<HashMap<String, k::Node<T>>, String> {
    let mut m = HashMap::new();
    for n in c.iter() {
        let name = n.joint().name.clone();
        ensure!(m.insert(name.clone(), n.clone()).is_none(), "two nodes are named {name:?}");
    }
    Ok(m)
}

/// everything the statement says about joints
pub fn check_joints<T: Sc>(d: &Doc, c: &k::Chain<T>) -> Res {
    ensure!(c.iter().count() == d.n() + 1, "{} nodes for {} joints", c.iter().count(), d.n());
    let m = by_name(c)?;
    let get = |s: &str| m.get(s).cloned().ok_or_else(|| format!("no node named {s:?}"));
    let root = get("root")?;
    ensure!(c.iter().next() == Some(&root), "the first node is not the root node");
    ensure!(root.parent().is_none() && root.is_root(), "the root node has a parent");
    ensure!(root.mimic_parent().is_none(), "the root node mimics");
    {
        let j = root.joint();
        ensure!(matches!(j.joint_type, k::JointType::Fixed), "the root node is not fixed");
        ensure!(j.limits.is_none(), "the root node has limits");
        close(j.origin(), &crate::math::Iso::ID, (T::EPS, T::EPS)).map_err(|e| format!("origin of the root node: {e}"))?;
    }
    for i in 0..d.n() {
        let name = d.jname(i);
        let n = get(&name)?;
        let want = match d.parent(i) {
            0 => "root".to_string(),
            p => d.jname(p - 1),
        };
        let got = n.parent().map(|p| p.joint().name.clone());
        ensure!(got.as_deref() == Some(want.as_str()), "parent of {name:?} is {got:?} instead of {want:?}");
        let leader = n.mimic_parent().map(|p| p.joint().name.clone());
        let want = d.leader(i).map(|l| d.jname(l.0));
        ensure!(leader == want, "{name:?} mimics {leader:?} instead of {want:?}");
        let j = n.joint();
        let (kind, axis) = match &j.joint_type {
            k::JointType::Fixed => (Kind::Fixed, None),
            k::JointType::Rotational { axis } => (Kind::Rot, Some(v3(axis))),
            k::JointType::Linear { axis } => (Kind::Lin, Some(v3(axis))),
        };
        ensure!(kind == d.kind(i), "{name:?} of type {} becomes {kind:?}", TYPES[d.joints[i].kind as usize % 7]);
        if let Some(a) = axis {
            let w = d.axis::<T>(i);
            ensure!(crate::math::vdiff(a, w) <= 8.0 * T::EPS, "axis of {name:?} is {a:?} instead of {w:?}");
        }
        let o = upose_iso::<T>(&d.joints[i].origin);
        close(j.origin(), &o, (4.0 * T::EPS, 4.0 * T::EPS * (1.0 + crate::math::norm(o.t)))).map_err(|e| format!("origin of {name:?}: {e}"))?;
        let l = j.limits.map(|l| (l.min.d(), l.max.d()));
        ensure!(l == d.limits::<T>(i), "limits of {name:?} are {l:?} instead of {:?} for {:?}", d.limits::<T>(i), d.limit_written(i));
        if let Some(p) = j.joint_position() {
            ensure!(p.d() == 0.0, "{name:?} starts at {p:?}");
        }
    }
    Ok(())
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let d = &case.doc;
    let robot = d.parse()?;
    let c = k::Chain::<T>::from(&robot);
    check_joints(d, &c)?;
    let want = snaps(&c.iter().cloned().collect::<Vec<_>>());
    let shown = format!("{c}");
    let c2: k::Chain<T> = robot.clone().into();
    check_joints(d, &c2).map_err(|e| format!("by value: {e}"))?;
    ensure!(snaps(&c2.iter().cloned().collect::<Vec<_>>()) == want, "the conversion by value gives another chain");

    if let Some(damage) = &case.file {
        let s = Scratch::new();
        let p = s.0.join("r.urdf");
        let text = d.text();
        let end = text.rfind("</robot").or_else(|| text.rfind("/>")).unwrap_or(0);
        let at = |x: &F, max: usize| {
            let mut k = ((max as f64 * x.0) as usize).min(max);
            while !text.is_char_boundary(k) {
                k -= 1;
            }
            k
        };
        let mut path = p.clone();
        let bytes: Option<Vec<u8>> = match damage {
            None => Some(text.clone().into_bytes()),
            Some(Damage::Cut(x)) => Some(text[..at(x, end)].as_bytes().to_vec()),
            Some(Damage::Tag(x)) => {
                let ends: Vec<usize> = text.match_indices("</").map(|m| m.0).collect();
                if ends.is_empty() {
                    Some(b"<robot name='r'></robo>".to_vec())
                } else {
                    let k = ends[((ends.len() as f64 * x.0) as usize).min(ends.len() - 1)] + 2;
                    Some([&text.as_bytes()[..k], b"x", &text.as_bytes()[k..]].concat())
                }
            }
            Some(Damage::NotUtf8(x)) => {
                let k = at(x, text.len());
                Some([&text.as_bytes()[..k], b"\xff", &text.as_bytes()[k..]].concat())
            }
            Some(Damage::Empty) => Some(vec![]),
            Some(Damage::Absent) => None,
            Some(Damage::Dir) => {
                path = s.0.join("d.urdf");
                std::fs::create_dir(&path).map_err(|e| format!("harness: {e}"))?;
                None
            }
        };
        if let Some(b) = &bytes {
            std::fs::write(&p, b).map_err(|e| format!("harness: {e}"))?;
        }
        let r = k::Chain::<T>::from_urdf_file(&path);
        match (damage, r) {
            (None, Ok(f)) => {
                check_joints(d, &f).map_err(|e| format!("from the file: {e}"))?;
                ensure!(snaps(&f.iter().cloned().collect::<Vec<_>>()) == want, "the chain read from the file differs");
                ensure!(format!("{f}") == shown, "the chain read from the file is printed as\n{f} instead of\n{shown}");
            }
            (None, Err(e)) => return Err(format!("the file is not read: {e}\n{text}")),
            // also documentation inside of comments may be damaged
            (Some(Damage::Tag(_)), Ok(_)) if text.contains("<!--") => {}
            (Some(x), Ok(f)) => return Err(format!("a chain of {} nodes from a damaged file ({x:?})", f.iter().count())),
            (Some(_), Err(_)) => {}
        }
        ctx.label(if damage.is_some() { "damaged file" } else { "file" });
    }

    // followers: the lengths and offsets, tried one leader after the other
    let m = by_name(&c)?;
    let node = |i: usize| m[&d.jname(i)].clone();
    let n = d.n();
    let leaders: Vec<Option<(usize, f64, f64)>> = (0..n).map(|i| d.leader(i).map(|(l, a, o)| (l, T::f(a).d(), T::f(o).d()))).collect();
    let mut followed = 0;
    for (k, i) in (0..n).filter(|i| d.kind(*i) != Kind::Fixed && leaders[*i].is_none()).enumerate() {
        let lim = d.limits::<T>(i);
        let v: T = ValSel::Frac(case.vals[k % case.vals.len()]).get::<T>(lim);
        let before: Vec<Option<f64>> = (0..n).map(|j| node(j).joint_position().map(|p| p.d())).collect();
        let r = node(i).set_joint_position(v);
        let pos: Vec<Option<f64>> = (0..n).map(|j| node(j).joint_position().map(|p| p.d())).collect();
        // joints which have to follow
        let mut fam = vec![i];
        let mut x = 0;
        while x < fam.len() {
            for j in 0..n {
                if leaders[j].map(|l| l.0) == Some(fam[x]) {
                    fam.push(j);
                }
            }
            x += 1;
        }
        for j in 0..n {
            if !fam.contains(&j) {
                ensure!(pos[j] == before[j], "{:?} moves when {:?} is set", d.jname(j), d.jname(i));
            }
        }
        if r.is_ok() {
            ensure!(pos[i] == Some(v.d()), "{:?} is at {:?} after it was set to {v:?}", d.jname(i), pos[i]);
            for j in &fam[1..] {
                let (l, a, o) = leaders[*j].unwrap();
                let p = pos[l].unwrap();
                let w = a * p + o;
                let tol = 4.0 * T::EPS * ((a * p).abs() + o.abs()) + 1e-40;
                ensure!((pos[*j].unwrap() - w).abs() <= tol, "{:?} is at {:?} instead of {w:?} for its leader {:?} at {p:?}", d.jname(*j), pos[*j], d.jname(l));
                followed += 1;
                ctx.label_if(d.joints[*j].mimic.as_ref().unwrap().mult.is_none(), "default multiplier");
                ctx.label_if(d.joints[*j].mimic.as_ref().unwrap().off.is_none(), "default offset");
            }
        } else {
            // only if some follower can not follow
            ensure!(fam[1..].iter().any(|j| d.limits::<T>(*j).is_some()), "{:?} can not be set to {v:?}: {r:?}", d.jname(i));
        }
    }
    ctx.label(T::NAME);
    ctx.label_if(followed > 0, "followers");
    ctx.label_if(n == 0, "no joint");
    ctx.label_if(d.jorder() != (0..n).collect::<Vec<_>>(), "children before parents possible");
    ctx.label_if((0..n).any(|i| d.limits::<T>(i).is_some()), "limits");
    ctx.label_if((0..n).any(|i| d.joints[i].axis.is_none()), "default axis");
    ctx.nontrivial = n >= 3 && (0..n).any(|i| d.kind(i) != Kind::Fixed);
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C20";
    const RULE: &'static str = "random URDF text (tree, seven joint types, optional parts, orders, notations of numbers, comments, foreign elements), read by urdf-rs, by the file function, and damaged in six ways; nodes compared by name with the document's meaning, followers tried; non-trivial: at least three joints, one movable";
    const ASSUME: &'static [&'static str] = &[
        "one root link, unique names, no joint named root, mimicked joints exist, no cycles of mimic relations, axes not zero",
        "urdf-rs reads numbers and attributes as it documents",
    ];
    const QUICK: u64 = 100_000;
    const THOROUGH: u64 = 1_500_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let x = || f(0.0..1.0f64);
        let damage = prop_oneof![
            4 => x().prop_map(Damage::Cut),
            3 => x().prop_map(Damage::Tag),
            1 => x().prop_map(Damage::NotUtf8),
            1 => Just(Damage::Empty),
            1 => Just(Damage::Absent),
            1 => Just(Damage::Dir),
        ];
        let file = prop::option::weighted(0.4, prop::option::of(damage));
        (doc(10, 0.35, false), file, proptest::collection::vec(x(), 1..8)).prop_map(|(doc, file, vals)| Case { doc, file, vals }).boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.doc.f32, run, case, ctx)
    }
}
