//! Printing
use crate::num::*;
use crate::runner::*;
use crate::spec::*;
use crate::{by_scalar, ensure};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: TreeSpec,
    pub sel: ChainSel,
    /// the empty chain
    pub empty: bool,
}

pub struct P;

fn line<T: Sc>(s: &TreeSpec, m: &Model, i: usize) -> String {
    let x = &s.nodes[i];
    let a = x.axis.map(|v| T::f(v.0).d());
    let letter = if a.iter().filter(|v| **v != 0.0).count() == 1 {
        let k = a.iter().position(|v| *v != 0.0).unwrap();
        format!("{}{}", if a[k] > 0.0 { "+" } else { "-" }, ["X", "Y", "Z"][k])
    } else {
        String::new()
    };
    let kind = match m.kind[i] {
        Kind::Fixed => "[⚓]".to_string(),
        Kind::Rot => format!("[⚙{letter}]"),
        Kind::Lin => format!("[↕{letter}]"),
    };
    let link = x.link.as_ref().map(|l| format!(" => /{}/", l.name)).unwrap_or_default();
    format!("{} {kind}{link}", m.name[i])
}

fn preorder(m: &Model, i: usize, level: usize, within: &[usize], out: &mut Vec<(usize, usize)>) {
    out.push((i, level));
    for c in &m.children[i] {
        if within.contains(c) {
            preorder(m, *c, level + 1, within, out);
        }
    }
}

/// Text of a forest which does not depend on the order of siblings
fn canonical(lines: &[(usize, String)]) -> Result<String, String> {
    fn sub(lines: &[(usize, String)], k: &mut usize, level: usize) -> Result<Vec<String>, String> {
        let mut v = vec![];
        while *k < lines.len() && lines[*k].0 >= level {
            if lines[*k].0 > level {
                return Err(format!("line {} is indented too far", *k + 1));
            }
            let own = lines[*k].1.clone();
            *k += 1;
            let below = sub(lines, k, level + 1)?;
            v.push(format!("({own:?} {})", below.join(" ")));
        }
        v.sort();
        Ok(v)
    }
    let mut k = 0;
    Ok(sub(lines, &mut k, 0)?.join(" "))
}

fn run<T: Sc>(case: &Case, ctx: &mut Ctx) -> Res {
    let m = Model::new::<T>(&case.tree);
    let b = Built::<T>::new(&case.tree, &m);
    if case.empty {
        let c = k::Chain::<T>::from_nodes(vec![]);
        ensure!(c.to_string().is_empty(), "the empty chain is printed as {:?}", c.to_string());
        ensure!(k::SerialChain::new_unchecked(c).to_string().is_empty(), "the empty serial chain is not printed as the empty text");
        ctx.label("empty");
        ctx.nontrivial = true;
        return Ok(());
    }
    let ch = case.sel.chain(&m, &b);
    let within = case.sel.expected(&m);
    let before = snaps(&b.nodes);
    let text = ch.to_string();
    ensure!(snaps(&b.nodes) == before, "printing changed the robot");
    let mut order = vec![];
    preorder(&m, within[0], 0, &within, &mut order);
    let want: String = order.iter().map(|(i, l)| format!("{}{}\n", "    ".repeat(*l), line::<T>(&case.tree, &m, *i))).collect();
    if text != want {
        let err = Err(format!("printed as\n{text}instead of\n{want}"));
        // siblings may have another order
        if !text.ends_with('\n') {
            return err;
        }
        let got: Vec<&str> = text[..text.len() - 1].split('\n').collect();
        if got.len() != order.len() {
            return err;
        }
        let names_indented = order.iter().any(|(i, _)| line::<T>(&case.tree, &m, *i).starts_with(' '));
        if names_indented {
            let mut a = got.clone();
            let mut b: Vec<&str> = want[..want.len() - 1].split('\n').collect();
            a.sort_unstable();
            b.sort_unstable();
            if a != b {
                return err;
            }
        } else {
            let parse = |s: &str| {
                let n = s.len() - s.trim_start_matches(' ').len();
                (n / 4, format!("{}{}", " ".repeat(n % 4), s.trim_start_matches(' ')))
            };
            let g: Vec<(usize, String)> = got.iter().map(|s| parse(s)).collect();
            let w: Vec<(usize, String)> = want[..want.len() - 1].split('\n').map(parse).collect();
            if canonical(&g)? != canonical(&w)? {
                return err;
            }
        }
    }
    if case.sel.kind == 1 || case.sel.kind == 2 {
        let s = case.sel.serial(&m, &b);
        ensure!(s.to_string() == text, "the serial chain is printed as\n{s}instead of\n{text}");
        ctx.label("serial chain");
    }
    ctx.label(T::NAME);
    ctx.label_if(within.len() < m.n, "part of a tree");
    ctx.label_if(within.iter().any(|i| case.tree.nodes[*i].link.is_some()), "with links");
    ctx.label_if(within.len() > 20, "more than 20 lines");
    ctx.nontrivial = within.iter().any(|i| m.children[*i].len() > 1);
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C25";
    const RULE: &'static str = "random tree with names of any single-line text, chain of any kind, or the empty chain; the text compared line by line with the preorder of the model; non-trivial: a branch at a node of the chain, or the empty chain";
    const TERMINATES: bool = true;
    const ASSUME: &'static [&'static str] = &["names do not contain line breaks", "siblings may come in any order"];
    const QUICK: u64 = 120_000;
    const THOROUGH: u64 = 3_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let t = tree(Cfg {
            links: true,
            any_names: true,
            big: true,
            ..Cfg::BASE
        });
        let ax = (prop::bool::weighted(0.3), prop::sample::select(vec![0.5, 7.0, 1e-3, 1.0]));
        (t, chain_sel(), prop::bool::weighted(0.02), ax)
            .prop_map(|(mut tree, sel, empty, (rescale, s))| {
                // axes are normalised, also coordinate axes
                if rescale {
                    for n in tree.nodes.iter_mut() {
                        n.axis = n.axis.map(|v| F(v.0 * s));
                    }
                }
                Case { tree, sel, empty }
            })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        by_scalar!(case.tree.f32, run, case, ctx)
    }
}
