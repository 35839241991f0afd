//! C03: inversion.
use super::c02::{amts, broad, dbg_alg, fams, leaf, narrow, prefixes, square};
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use cubing::alg::*;
use cubing::kpuzzle::*;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        level: "model_checking",
        rule: "All algs up to a size; the library's inverse is compared with the reference inverse node by node, applied twice, and its effect composed with the original on a puzzle with an involutive slash and commuting Square-1 halves. states = distinct algs, transitions = nodes inverted.",
        assumptions: &["effect checks use a puzzle on which the slash is an involution and U_SQ_/D_SQ_ commute, as the property says"],
        explore,
        replay,
        hang_s: 20,
        nshards: 8,
    }
}
fn node_inv(n: &AlgNode) -> AlgNode {
    match n {
        AlgNode::MoveNode(x) => x.invert().into(),
        AlgNode::PauseNode(x) => x.invert().into(),
        AlgNode::NewlineNode(x) => x.invert().into(),
        AlgNode::LineCommentNode(x) => x.invert().into(),
        AlgNode::GroupingNode(x) => x.invert().into(),
        AlgNode::CommutatorNode(x) => x.invert().into(),
        AlgNode::ConjugateNode(x) => x.invert().into(),
    }
}
fn structural(a: &RAlg) -> Result<Alg, String> {
    state_of(a);
    trans(a.len() as u64);
    trace(1);
    if let Some(x) = share(a) {
        let i = x.invert();
        must("inverse with shared parts", from_alg(&i), rinv(a))?;
        must("double inverse with shared parts", from_alg(&i.invert()), rinv(&rinv(a)))?;
        must("alg with shared parts", from_alg(&x), a.clone())?;
    }
    let x = to_alg(a);
    let i = x.invert();
    must("inverse", from_alg(&i), rinv(a))?;
    must("double inverse", from_alg(&i.invert()), rinv(&rinv(a)))?;
    if from_alg(&x) != *a {
        return Err("inversion changed the alg it was applied to".into());
    }
    for (n, xn) in a.iter().zip(&x.nodes) {
        must("node inverse", from_node(&xn.invert()), rinv_node(n))?;
        must("inverse of the node's own type", from_node(&node_inv(xn)), rinv_node(n))?;
    }
    Ok(x)
}
fn effect(p: &RPuz, k: &KPuzzle, a: &RAlg) -> Result<(), String> {
    let x = structural(a)?;
    let i = x.invert();
    let o = &p.orbits;
    let (Some(t), Ok(lt)) = (p.alg(a), k.transformation_from_alg(&x)) else {
        return Err("alg was not accepted by the puzzle".into());
    };
    let li = k.transformation_from_alg(&i).map_err(|e| format!("inverse refused: {}", e))?;
    let lii = k.transformation_from_alg(&i.invert()).map_err(|e| format!("double inverse refused: {}", e))?;
    must("effect of the inverse", t_read(&li), rtinv(o, &t))?;
    must("effect of the double inverse", t_read(&lii), t.clone())?;
    let id = k.identity_transformation();
    ensure(lt.apply_transformation(&li) == id && li.apply_transformation(&lt) == id, || {
        "alg followed by its inverse is not the identity".into()
    })?;
    let start = k.default_pattern();
    let there = start.apply_alg(&x).map_err(|e| e.to_string())?;
    let back = there.apply_alg(&i).map_err(|e| e.to_string())?;
    ensure(back == start, || "pattern does not come back".into())
}
fn explore(cx: &mut Cx) {
    let t = cx.thorough;
    for (leaves, am, n) in [
        (broad(), vec![1, -1, 2, 0, 2147483647, -2147483647], if t { 4 } else { 3 }),
        (narrow(), vec![1, -1, 2], if t { 5 } else { 4 }),
        (square(), vec![1, -1, 2], 5),
    ] {
        let g = Gen::new(leaves, am, n);
        for k in 0..=n {
            g.each(k, &mut |a| {
                if cx.mine() {
                    cx.case("structure", || dbg_alg(a), || structural(a).map(|_| ()));
                }
            });
        }
    }
    // names next to the special ones: only the special ones are special
    for f in fams() {
        for pre in prefixes() {
            for n in amts() {
                if cx.mine() {
                    let m = RN::M(RMove { pre: pre.clone(), fam: f.clone(), amt: n });
                    let a = vec![m.clone(), RN::G(vec![m], n)];
                    cx.case("names", || dbg_alg(&a), || structural(&a).map(|_| ()));
                }
            }
        }
    }
    for f1 in near("U_SQ_") {
        for f2 in near("D_SQ_") {
            for (n1, n2) in [(1, 1), (-2, 3), (5, -1), (0, 6)] {
                for (p1, p2) in [(RPre::No, RPre::No), (RPre::L(2), RPre::No), (RPre::No, RPre::R(1, 2))] {
                    for g in [1, -1, 2] {
                        if cx.mine() {
                            let m = |pre: &RPre, f: &str, n| RN::M(RMove { pre: pre.clone(), fam: f.into(), amt: n });
                            let (x, y) = (m(&p1, &f1, n1), m(&p2, &f2, n2));
                            let a = vec![RN::G(vec![x.clone(), y.clone()], g), x.clone(), y.clone(), RN::G(vec![y, x], g)];
                            cx.case("tuples", || dbg_alg(&a), || structural(&a).map(|_| ()));
                        }
                    }
                }
            }
        }
    }
    let p = crate::zoo::sq();
    let k = match load(&p) {
        Ok(k) => k,
        Err(e) => return cx.violate("setup", "sq".into(), e),
    };
    let leaves: Vec<RN> = ["A", "B2'", "/", "2A", "A++", "C", "F'"].iter().map(|s| leaf(s)).chain([RN::P, RN::N, RN::C("c".into())]).collect();
    let tuples: Vec<RN> = ["U_SQ_2", "D_SQ_'", "/", "A"].iter().map(|s| leaf(s)).collect();
    for (leaves, am, n) in [(leaves, vec![1, -1, 2, -3, 0], if t { 4 } else { 3 }), (tuples, vec![1, -1, 2], if t { 5 } else { 4 })] {
        let g = Gen::new(leaves, am, n);
        for q in 0..=n {
            g.each(q, &mut |a| {
                if cx.mine() {
                    cx.case("effect", || dbg_alg(a), || effect(&p, &k, a));
                }
            });
        }
    }
    // long algs: reversal at every length, with every kind of node in every position
    let kinds: Vec<RN> = vec![
        leaf("A"), leaf("B3"), leaf("/"), leaf("T3'"), RN::P, RN::N, RN::C("x".into()),
        RN::G(vec![leaf("A"), leaf("B")], 2), RN::K(vec![leaf("A")], vec![leaf("B")]), RN::J(vec![leaf("C")], vec![leaf("/")]),
        RN::G(vec![leaf("U_SQ_2"), leaf("D_SQ_'")], 1),
    ];
    for len in 1..=if t { 400 } else { 64 } {
        for shift in 0..kinds.len() {
            if cx.mine() {
                let a: RAlg = (0..len).map(|i| kinds[(i * i + shift + i / 3) % kinds.len()].clone()).collect();
                cx.case("long", || format!("{} {}", len, shift), || effect(&p, &k, &a));
            }
        }
    }
    // longer ones, where the parts are all different
    let mut lens: Vec<usize> = (65..=if t { 3000 } else { 1100 }).collect();
    for b in 11..=17 {
        lens.extend([(1usize << b) - 1, 1 << b, (1 << b) + 1]);
    }
    for n in lens {
        if cx.mine() {
            let a: RAlg = (0..n).map(|i| RN::M(RMove { pre: RPre::No, fam: if i % 3 == 0 { "R" } else { "U" }.into(), amt: i as i64 + 1 })).collect();
            cx.case("longer", || n.to_string(), || structural(&a).map(|_| ()));
            let a = vec![RN::K(a.clone(), vec![RN::G(a, 2)])];
            cx.case("longer", || n.to_string(), || structural(&a).map(|_| ()));
        }
    }
    // nesting depth: alone, then with the effect
    towers(&[0, 1, 2, 3, 4, 5, 6], &leaf("R"), &leaf("U2'"), &depths(if t { 400 } else { 260 }), &mut |s, a| {
        if cx.mine() {
            cx.case("tower", || s, || structural(&a).map(|_| ()));
        }
    });
    towers(&[0, 1, 2, 6], &leaf("A"), &leaf("B2'"), &depths(if t { 400 } else { 130 }), &mut |s, a| {
        if cx.mine() {
            cx.case("tower effect", || s, || effect(&p, &k, &a));
        }
    });
    for d in 1..=if t { 14 } else { 9 } {
        for form in 0..6usize {
            if cx.mine() {
                let mut a: RAlg = vec![leaf("A"), leaf("B'")];
                for i in 0..d {
                    a = match (form + i * (form % 2)) % 6 {
                        0 => vec![RN::G(a, -2), leaf("B")],
                        1 => vec![leaf("/"), RN::K(a, vec![leaf("B")])],
                        2 => vec![RN::K(vec![leaf("C")], a)],
                        3 => vec![RN::J(a, vec![leaf("A")]), RN::P],
                        4 => vec![RN::J(vec![leaf("/")], a)],
                        _ => vec![RN::G(a, 1)],
                    };
                }
                cx.case("deep", || format!("{} {}", d, form), || effect(&p, &k, &a));
            }
        }
    }
    cx.sample(dbg_alg(&kinds));
}
/// A special name and its neighbours.
pub fn near(f: &str) -> Vec<String> {
    let mut v = vec![f.to_string(), format!("{}x", f), format!("x{}", f), format!("{}_", f), format!("_{}", f)];
    v.push(f[..f.len() - 1].into());
    v.push(f[1..].into());
    v.push(f.to_lowercase());
    v.push(format!("{}{}", f, f));
    v
}
fn replay(_: &str, _: &str) -> Result<(), String> {
    Ok(())
}
