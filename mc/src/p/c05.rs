//! C05: AlgBuilder concatenates.
use super::c02::leaf;
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use cubing::alg::*;
use cubing::kpuzzle::*;

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        level: "model_checking",
        rule: "All push sequences up to a depth over a menu of fragments (empty, one-node and many-node algs, every node type), with and without an initial fragment. The model state is the node list so far. states = distinct node lists reached, transitions = pushes.",
        assumptions: &[],
        explore,
        replay,
        hang_s: 20,
        nshards: 8,
    }
}
#[derive(Clone)]
enum F {
    A(RAlg),
    N(RN),
}
fn menu() -> Vec<F> {
    let a = leaf("A");
    let b = leaf("B'");
    vec![
        F::A(vec![]),
        F::A(vec![a.clone()]),
        F::A(vec![a.clone(), b.clone(), RN::C("c".into())]),
        F::A(vec![RN::G(vec![a.clone()], 2), RN::N, RN::P]),
        F::A(vec![b.clone(), b.clone()]),
        F::N(a.clone()),
        F::N(leaf("A'")),
        F::N(RN::P),
        F::N(RN::N),
        F::N(RN::C("x".into())),
        F::N(RN::G(vec![a.clone(), b.clone()], 3)),
        F::N(RN::K(vec![a.clone()], vec![b.clone()])),
        F::N(RN::J(vec![], vec![b.clone()])),
        F::A(vec![RN::K(vec![a.clone()], vec![b.clone()]), a.clone()]),
        F::N(leaf("/")),
    ]
}
fn nodes(f: &F) -> RAlg {
    match f {
        F::A(a) => a.clone(),
        F::N(n) => vec![n.clone()],
    }
}
fn run(m: &[F], seq: &[usize], init: usize, k: &KPuzzle, deep: bool) -> Result<(), String> {
    // init: 0 none, 1 default(), 2 first element as the initial fragment
    let algs: Vec<(usize, Alg)> = m.iter().enumerate().map(|(i, f)| (i, to_alg(&nodes(f)))).collect();
    let mut want: RAlg = vec![];
    let mut rest = seq;
    let mut b = match init {
        0 => AlgBuilder::new(None::<&Alg>),
        1 => AlgBuilder::default(),
        _ => {
            let i = seq[0];
            rest = &seq[1..];
            want.extend(nodes(&m[i]));
            match &m[i] {
                F::A(_) => AlgBuilder::new(Some(&algs[i].1)),
                F::N(_) => AlgBuilder::new(Some(&algs[i].1.nodes[0])),
            }
        }
    };
    for &i in rest {
        want.extend(nodes(&m[i]));
        trans(1);
        match &m[i] {
            F::A(_) => b.push(&algs[i].1),
            F::N(_) => b.push(&algs[i].1.nodes[0]),
        }
    }
    let got = b.to_alg();
    trace(1);
    state_of(&want);
    let g = from_alg(&got);
    if g != want {
        return Err(format!("built {:?} instead of {:?}", g, want));
    }
    for (i, a) in &algs {
        ensure(from_alg(a) == nodes(&m[*i]), || "a fragment was changed".into())?;
    }
    if deep {
        let mut t = k.identity_transformation();
        for &i in seq {
            let x = k.transformation_from_alg(&algs[i].1).map_err(|e| e.to_string())?;
            t = t.apply_transformation(&x);
        }
        let whole = k.transformation_from_alg(&got).map_err(|e| e.to_string())?;
        ensure(t == whole, || "effect differs from applying the fragments one after another".into())?;
    }
    Ok(())
}
fn same(what: &str, got: Alg, want: &RAlg) -> Result<(), String> {
    trace(1);
    let g = from_alg(&got);
    ensure(g == *want, || format!("{}: built {:?} instead of {:?}", what, g, want))
}
fn one(a: &RAlg) -> Result<(), String> {
    state_of(a);
    let x = to_alg(a);
    trans(4);
    same("initial", AlgBuilder::new(Some(&x)).to_alg(), a)?;
    let mut b = AlgBuilder::default();
    b.push(&x);
    same("pushed", b.to_alg(), a)?;
    if let [n] = x.nodes.as_slice() {
        same("initial node", AlgBuilder::new(Some(n)).to_alg(), a)?;
        let mut b = AlgBuilder::new(Some(n));
        b.push(n);
        same("node twice", b.to_alg(), &vec![a[0].clone(), a[0].clone()])?;
    }
    ensure(from_alg(&x) == *a, || "a fragment was changed".into())
}
fn two(a: &RAlg, b: &RAlg) -> Result<(), String> {
    let (x, y) = (to_alg(a), to_alg(b));
    let mut want = a.clone();
    want.extend(b.iter().cloned());
    state_of(&want);
    trans(4);
    let mut p = AlgBuilder::new(Some(&x));
    p.push(&y);
    same("initial and pushed", p.to_alg(), &want)?;
    let mut p = AlgBuilder::default();
    for n in x.nodes.iter().chain(&y.nodes) {
        p.push(n);
    }
    same("node by node", p.to_alg(), &want)
}
fn parse_case(c: &str) -> (usize, Vec<usize>) {
    let v: Vec<usize> = c.split_whitespace().map(|x| x.parse().unwrap()).collect();
    (v[0], v[1..].to_vec())
}
fn enc(init: usize, s: &[usize]) -> String {
    let mut v = vec![init.to_string()];
    v.extend(s.iter().map(|x| x.to_string()));
    v.join(" ")
}
fn explore(cx: &mut Cx) {
    let m = menu();
    let k = match load(&crate::zoo::sq()) {
        Ok(k) => k,
        Err(e) => return cx.violate("setup", "sq".into(), e),
    };
    let hi = if cx.thorough { 5 } else { 4 };
    for n in 0..=hi {
        seqs(m.len(), n, &mut |s| {
            if cx.mine() {
                for init in 0..3 {
                    if init == 2 && n == 0 {
                        continue;
                    }
                    cx.case("seq", || enc(init, s), || run(&m, s, init, &k, n <= 3));
                }
            }
        });
    }
    // every small alg as a fragment: as the initial one, pushed, as a node, next to every other small one
    let leaves: Vec<RN> = ["A", "A'", "B", "A0", "2A", "/", "A++"].iter().map(|s| leaf(s)).chain([RN::P, RN::N, RN::C("c".into())]).collect();
    let g = Gen::new(leaves, vec![1, -1, 2, 0], 3);
    let mut small = vec![];
    for n in 0..=if cx.thorough { 3 } else { 2 } {
        g.each(n, &mut |a| small.push(a.clone()));
    }
    g.each(3, &mut |a| {
        if cx.mine() {
            cx.case("one", || super::c02::dbg_alg(a), || one(a));
        }
    });
    let second: Vec<&RAlg> = small.iter().take(if cx.thorough { 400 } else { small.len() }).collect();
    for a in &small {
        if cx.mine() {
            for b in &second {
                cx.case("two", || format!("{} | {}", super::c02::dbg_alg(a), super::c02::dbg_alg(b)), || two(a, b));
            }
        }
    }
    // long builds, every length (growth of the fragment list)
    for n in (1..=if cx.thorough { 1200 } else { 300 }).chain([4096, 10000]) {
        if cx.mine() {
            for st in 1..4 {
                let s: Vec<usize> = (0..n).map(|i| (i * st + i / 7) % m.len()).collect();
                for init in [0, 2] {
                    cx.case("seq", || enc(init, &s), || run(&m, &s, init, &k, false));
                }
            }
        }
    }
    // long fragments: as the initial one, pushed, and between others
    for b in 3..=if cx.thorough { 19 } else { 17 } {
        for n in [(1usize << b) - 1, 1 << b, (1 << b) + 1] {
            for unit in [1, 3] {
                if cx.mine() {
                    cx.case("long fragment", || format!("{} {}", n, unit), || {
                        let a: RAlg = (0..n).map(|i| if unit == 3 && i % 3 == 2 { RN::G(vec![leaf("A")], i as i64) } else { RN::M(RMove { amt: i as i64, ..rparse_move("A").unwrap() }) }).collect();
                        one(&a)?;
                        let short = vec![leaf("B"), RN::P];
                        two(&a, &short)?;
                        two(&short, &a)?;
                        two(&a, &a)?;
                        let x = to_alg(&a);
                        let mut p = AlgBuilder::new(Some(&x));
                        p.push(&x.nodes[0]);
                        p.push(&x);
                        p.push(&to_alg(&short));
                        p.push(&x);
                        let mut want = a.clone();
                        want.push(a[0].clone());
                        want.extend(a.clone());
                        want.extend(short);
                        want.extend(a);
                        same("long and short", p.to_alg(), &want)
                    });
                }
            }
        }
    }
    cx.sample("fragments pushed by index: 2 5 10 13 14".into());
}
fn replay(kind: &str, case: &str) -> Result<(), String> {
    if kind != "seq" {
        return Ok(());
    }
    let (i, s) = parse_case(case);
    run(&menu(), &s, i, &load(&crate::zoo::sq())?, true)
}
