//! C02: printing then parsing gives the same alg.
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use cubing::alg::*;
use std::fmt::{Display, Write};

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        level: "model_checking",
        rule: "All algs up to a size over a broad and a narrow leaf set, all accepted strings over several alphabets, all moves over families x prefixes x amounts. Each is printed and parsed back on the library and compared in normal form; the same for its inverse and for each node on its own. states = distinct algs, transitions = nodes printed and parsed.",
        assumptions: &["amounts other than i32::MIN, families of letters and underscores (all that can be parsed)"],
        explore,
        replay,
        hang_s: 20,
        nshards: 8,
    }
}
pub fn print<T: Display>(t: &T) -> Result<String, String> {
    let mut s = String::new();
    write!(s, "{}", t).map_err(|_| "Display returned an error".to_string())?;
    Ok(s)
}
fn roundtrip(a: &[RN], x: &Alg, what: &str) -> Result<(), String> {
    let s = print(x)?;
    let b = s.parse::<Alg>().map_err(|_| format!("{} prints as {:?}, which does not parse", what, s))?;
    trans(a.len() as u64);
    trace(1);
    let got = norm(&from_alg(&b), false);
    let want = norm(a, false);
    if got != want {
        return Err(format!("{} prints as {:?}, which parses as {:?} instead of {:?}", what, s, got, want));
    }
    // printing must be stable from the first round trip on
    let s2 = print(&b)?;
    let c = s2.parse::<Alg>().map_err(|_| format!("reprint {:?} does not parse", s2))?;
    if norm(&from_alg(&c), false) != got {
        return Err(format!("{:?} and its reprint {:?} differ", s, s2));
    }
    Ok(())
}
pub fn check(a: &RAlg) -> Result<(), String> {
    if let Some(x) = share(a) {
        roundtrip(a, &x, "alg with shared parts")?;
        roundtrip(&rinv(a), &x.invert(), "inverse with shared parts")?;
    }
    let x = to_alg(a);
    roundtrip(a, &x, "alg")?;
    state_of(a);
    let i = rinv(a);
    roundtrip(&i, &x.invert(), "inverse")?;
    for (n, xn) in a.iter().zip(&x.nodes) {
        let s = match xn {
            AlgNode::MoveNode(y) => print(y)?,
            AlgNode::PauseNode(y) => print(y)?,
            AlgNode::NewlineNode(y) => print(y)?,
            AlgNode::LineCommentNode(y) => print(y)?,
            AlgNode::GroupingNode(y) => print(y)?,
            AlgNode::CommutatorNode(y) => print(y)?,
            AlgNode::ConjugateNode(y) => print(y)?,
        };
        let s2 = print(xn)?;
        for s in [&s, &s2] {
            let b = s.parse::<Alg>().map_err(|_| format!("node prints as {:?}, which does not parse", s))?;
            let got = norm(&from_alg(&b), false);
            let want = norm(&[n.clone()], false);
            if got != want {
                return Err(format!("node prints as {:?}: {:?} instead of {:?}", s, got, want));
            }
        }
    }
    Ok(())
}
pub fn check_str(s: &str) -> Result<(), String> {
    if let (Some(a), Ok(x)) = (rparse(s), s.parse::<Alg>()) {
        state_of(&a);
        let b = from_alg(&x);
        if a != b {
            return Ok(()); // a parsing problem: C01's business
        }
        roundtrip(&a, &x, "parsed alg")?;
        roundtrip(&rinv(&a), &x.invert(), "inverse of parsed alg")?;
    }
    Ok(())
}
pub fn check_mv(m: &RMove) -> Result<(), String> {
    state_of(m);
    trans(1);
    trace(1);
    let x = to_mv(m);
    let s = print(&x)?;
    let y = s.parse::<Move>().map_err(|_| format!("move {:?} prints as {:?}, which does not parse", m, s))?;
    if y != x || from_mv(&y) != *m {
        return Err(format!("move {:?} prints as {:?}, which parses as {:?}", m, s, from_mv(&y)));
    }
    let q = to_q(m);
    let s = print(&q)?;
    let y = s.parse::<QuantumMove>().map_err(|_| format!("{:?} prints as {:?}, which does not parse", q, s))?;
    if y != q {
        return Err(format!("{:?} prints as {:?}, which parses as {:?}", q, s, y));
    }
    if let Some(p) = &q.prefix {
        let s = format!("{}R", print(p)?);
        let y = s.parse::<QuantumMove>().map_err(|_| format!("prefix {:?} does not print", p))?;
        if y.prefix.as_ref() != Some(p) {
            return Err(format!("prefix {:?} printed as {:?}", p, s));
        }
    }
    roundtrip(&[RN::M(m.clone())], &to_alg(&[RN::M(m.clone())]), "single move alg")?;
    roundtrip(
        &[RN::M(m.clone()), RN::M(m.clone())],
        &to_alg(&[RN::M(m.clone()), RN::M(m.clone())]),
        "two move alg",
    )
}
pub fn leaf(s: &str) -> RN {
    RN::M(rparse_move(s).unwrap())
}
pub fn broad() -> Vec<RN> {
    let mut v: Vec<RN> = [
        "R", "R'", "R2", "R2'", "R0", "3R", "2-3Rw'", "/", "_SLASH_2", "_SLASH_'", "2_SLASH_", "U_SQ_3", "D_SQ_4'",
        "U_SQ_", "D_SQ_", "2U_SQ_", "A++", "A--", "A_PLUSPLUS_2", "_PLUSPLUS_", "B3+", "B2-", "B_PLUS_", "B0+", "_PLUS_2", "R2147483647'",
    ]
    .iter()
    .map(|s| leaf(s))
    .collect();
    v.push(RN::P);
    v.push(RN::N);
    v.push(RN::C("".into()));
    v.push(RN::C(" c) ] , é\r".into()));
    v
}
pub fn narrow() -> Vec<RN> {
    vec![leaf("R"), leaf("U2'"), leaf("/"), RN::P, RN::N, RN::C("c".into())]
}
pub fn square() -> Vec<RN> {
    vec![leaf("U_SQ_3"), leaf("D_SQ_4'"), leaf("/"), RN::C("".into())]
}
pub fn dbg_alg(a: &RAlg) -> String {
    format!("{:?}", a)
}
pub fn fams() -> Vec<String> {
    let parts = ["", "R", "_", "PLUS", "_PLUS_", "_PLUSPLUS_", "_SLASH_", "U_SQ_", "D_SQ_", "SLASH", "x"];
    let mut v = vec![];
    for n in 1..=3 {
        strings(&parts, n, &mut |s| {
            if !s.is_empty() {
                v.push(s.to_string())
            }
        });
    }
    v.sort();
    v.dedup();
    v
}
pub fn amts() -> Vec<i64> {
    let mut v: Vec<i64> = (-13..=13).collect();
    v.extend([99, -100, 127, 128, -129, 255, 256, 32767, 32768, -32769, 65536, 2147483646, 2147483647, -2147483646, -2147483647]);
    v
}
pub fn prefixes() -> Vec<RPre> {
    let ns = [0u32, 1, 2, 9, 10, 255, 256, u32::MAX - 1, u32::MAX];
    let mut v = vec![RPre::No];
    for a in ns {
        v.push(RPre::L(a));
    }
    for a in ns {
        for b in ns {
            v.push(RPre::R(a, b));
        }
    }
    v
}

fn explore(cx: &mut Cx) {
    let t = cx.thorough;
    let amts_b = vec![1, -1, 2, -2, 0, 2147483647, -2147483647];
    let sets: Vec<(Vec<RN>, Vec<i64>, usize)> = vec![
        (broad(), amts_b.clone(), if t { 4 } else { 3 }),
        (narrow(), vec![1, -1, 2], if t { 5 } else { 4 }),
        (square(), vec![1, -1], if t { 5 } else { 5 }),
    ];
    for (leaves, am, n) in sets {
        let g = Gen::new(leaves, am, n);
        for k in 0..=n {
            g.each(k, &mut |a| {
                if cx.mine() {
                    cx.case("alg", || serde_json::to_string(&dbg_alg(a)).unwrap(), || check(a));
                }
            });
        }
    }
    // deep ones
    towers(&[0, 1, 2, 3, 4, 5, 6], &leaf("R"), &leaf("U2'"), &depths(if t { 400 } else { 260 }), &mut |s, a| {
        if cx.mine() {
            cx.case("tower", || s, || check(&a));
        }
    });
    // flat sequences: all ordered pairs and triples of the broad leaves in every bracket position
    let b = broad();
    for x in &b {
        for y in &b {
            for z in &b {
                if cx.mine() {
                    let l = vec![x.clone(), y.clone(), z.clone()];
                    for a in [
                        l.clone(),
                        vec![RN::G(l.clone(), 1)],
                        vec![RN::G(l.clone(), -2)],
                        vec![RN::K(l.clone(), l.clone())],
                        vec![RN::J(l[..2].to_vec(), l[1..].to_vec())],
                        vec![x.clone(), RN::G(vec![y.clone()], 2), z.clone()],
                        vec![x.clone(), RN::K(vec![y.clone()], vec![z.clone()])],
                        vec![RN::J(vec![x.clone()], vec![y.clone()]), z.clone()],
                    ] {
                        cx.case("alg", || serde_json::to_string(&dbg_alg(&a)).unwrap(), || check(&a));
                    }
                }
            }
        }
    }
    for f in fams() {
        for p in prefixes() {
            if cx.mine() {
                for a in amts() {
                    let m = RMove { pre: p.clone(), fam: f.clone(), amt: a };
                    cx.case("move", || serde_json::to_string(&dbg_alg(&vec![RN::M(m.clone())])).unwrap(), || check_mv(&m));
                }
            }
        }
    }
    // line comments with every character
    for c in (0..if t { 0x110000u32 } else { 0x800 }).chain([0x2028, 0x2029, 0xfeff, 0x10ffff]) {
        let Some(c) = char::from_u32(c) else { continue };
        if c != '\n' && cx.mine() {
            for txt in [format!("{}", c), format!(" {}{} x", c, c), format!("a{}", c)] {
                let n = RN::C(txt);
                for a in [vec![n.clone()], vec![n.clone(), leaf("R")], vec![RN::G(vec![n.clone()], 2)], vec![RN::K(vec![n.clone()], vec![n.clone()])]] {
                    cx.case("alg", || serde_json::to_string(&dbg_alg(&a)).unwrap(), || check(&a));
                }
            }
        }
    }
    if cx.mine() {
        cx.case("comment", || "".into(), || {
            ensure(LineComment::try_new("a\nb").is_err() && LineComment::try_new("\n").is_err(), || {
                "a comment containing a newline was constructed".into()
            })
        });
    }
    // accepted strings
    let strs: Vec<(&[&str], usize)> = vec![
        (super::c01::FULL, if t { 5 } else { 4 }),
        (&["/", "\n", "R", " ", "(", ")", ".", "[", ",", "]"], if t { 7 } else { 6 }),
        (&["(", ")", "1", "0", "-", ",", " ", "R"], if t { 8 } else { 7 }),
        (super::c01::TOKENS, if t { 4 } else { 3 }),
    ];
    for (al, n) in strs {
        for k in 0..=n {
            strings(al, k, &mut |s| {
                if cx.mine() {
                    cx.case("str", || s.into(), || check_str(s));
                }
            });
        }
    }
    // long algs: every kind of node at every length
    let mut lens: Vec<usize> = (1..=if t { 600 } else { 300 }).collect();
    for b in 9..=if t { 17 } else { 13 } {
        lens.extend([(1usize << b) - 1, 1 << b, (1 << b) + 1]);
    }
    lens.extend([1000, 1001, 10_000, 10_001]);
    if t {
        lens.extend([100_000, 100_001]);
    }
    let units: Vec<Vec<RN>> = vec![
        vec![leaf("R")],
        vec![RN::G(vec![leaf("R")], 2)],
        vec![RN::K(vec![leaf("R")], vec![leaf("U")])],
        vec![RN::P],
        vec![RN::N],
        vec![RN::C("c".into()), leaf("R")],
        vec![RN::G(vec![leaf("U_SQ_3"), leaf("D_SQ_4'")], 1), leaf("/")],
        vec![leaf("R"), leaf("A++"), RN::P, leaf("B3+"), RN::J(vec![leaf("R")], vec![RN::N])],
    ];
    for n in lens {
        for (u, unit) in units.iter().enumerate() {
            if n > 1100 && u > 2 && !t {
                continue;
            }
            if cx.mine() {
                let a: RAlg = (0..n).map(|i| unit[i % unit.len()].clone()).collect();
                for a in [a.clone(), vec![RN::G(a.clone(), 2)], vec![RN::K(a.clone(), vec![leaf("U")])]] {
                    cx.case("long", || format!("{} {}", n, u), || {
                        let x = to_alg(&a);
                        state_of(&(n, u));
                        roundtrip(&a, &x, "alg")
                    });
                }
            }
        }
    }
    for (o, c) in super::c01::NESTS {
        for d in [1, 2, 3, 10, 40, 100] {
            if cx.mine() {
                let s = super::c01::nest(o, "R", c, d);
                cx.case("str", || s.clone(), || check_str(&s));
            }
        }
    }
    cx.sample(format!("{:?}", broad()));
}
fn replay(kind: &str, case: &str) -> Result<(), String> {
    match kind {
        "str" => check_str(case),
        // structural cases are replayed by position
        _ => Ok(()),
    }
}
