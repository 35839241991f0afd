//! C23: algs that do not fit the puzzle.
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use crate::zoo::*;
use cubing::alg::*;
use cubing::kpuzzle::*;
use std::error::Error;

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        level: "model_checking",
        rule: "All alg trees up to a size over known moves, unknown moves and pauses with amounts including zero, on three puzzles; every unknown notation in every one-hole context up to a size; deep and wide contexts. Evaluation and application must fail exactly when the reference finds a missing move; the error must display, name a missing move, and have a finite cause chain; the pattern must be unchanged. All error kinds from malformed definitions, data, JSON and texts must display. states = distinct algs, transitions = evaluations.",
        assumptions: &["naming a move means containing its notation, the notation of its inverse or its family with prefix"],
        explore,
        replay,
        hang_s: 60,
        nshards: 8,
    }
}
struct P {
    name: &'static str,
    k: KPuzzle,
    r: Option<RPuz>,
    pat: KPattern,
    known: Vec<RMove>,
    unknown: Vec<RMove>,
}
impl P {
    fn exists(&self, m: &RMove) -> bool {
        match &self.r {
            Some(r) => r.lookup(m).is_some(),
            None => {
                // built-in puzzles: definitions read through the public definition
                let d = self.k.definition();
                [RMove { amt: 1, ..m.clone() }, m.clone(), RMove { amt: -m.amt, ..m.clone() }].iter().any(|x| {
                    let x = to_mv(x);
                    d.moves.contains_key(&x) || d.derived_moves.as_ref().is_some_and(|d| d.contains_key(&x))
                })
            }
        }
    }
}
fn rm(v: &[&str]) -> Vec<RMove> {
    v.iter().map(|s| rparse_move(s).unwrap_or_else(|| panic!("{}", s))).collect()
}
fn puzzles() -> Result<Vec<P>, String> {
    let s = sq();
    let k = load(&s)?;
    let c3 = cubing::puzzles::cube3x3x3_kpuzzle().clone();
    let c2 = cubing::puzzles::cube2x2x2_kpuzzle().clone();
    let amounts = RPuz::new(PSpec {
        name: "amounts",
        orbits: vec![("P", 3, 2)],
        default: None,
        moves: vec![("A2", vec![(vec![1, 2, 0], vec![0, 1, 0])]), ("B'", vec![(vec![1, 0, 2], vec![0, 0, 0])]), ("3C", vec![(vec![2, 0, 1], vec![0, 0, 0])])],
        derived: vec![("D2", "A2 B"), ("E", "3C2")],
    });
    let ka = load(&amounts)?;
    Ok(vec![
        P {
            name: "sq",
            pat: k.default_pattern(),
            k,
            known: rm(&["A", "C2'", "/"]),
            unknown: rm(&["Z", "Z2'", "a", "3A", "2-4A", "1-3A", "2B", "A2+", "A2-", "B++", "T4", "T2'", "T1", "E3", "E", "A_", "_A", "U_SQ", "_SLASH__", "2_SLASH_"]),
            r: Some(s),
        },
        P { name: "3x3x3", pat: c3.default_pattern(), k: c3, r: None, known: rm(&["R", "Uw2'", "x"]), unknown: rm(&["/", "Z", "Q2'", "4R", "3-4R", "R++", "R3+", "R--", "U_SQ_3", "Rr", "rw", "e", "_R", "R_"]) },
        P { name: "2x2x2", pat: c2.default_pattern(), k: c2, r: None, known: rm(&["R", "U2'", "x"]), unknown: rm(&["/", "M", "Z", "Q2'", "3R", "R++", "R3+", "E2", "S'", "U_SQ_"]) },
        P { name: "amounts", pat: ka.default_pattern(), k: ka, r: Some(amounts), known: rm(&["A2", "B'", "B", "3C5", "D2'", "E"]), unknown: rm(&["A", "A'", "A4", "A3", "A0", "B2", "B0", "C", "C2", "2C", "D", "D4", "D1", "2E", "E++"]) },
    ])
}
fn chain(e: &dyn Error) -> Result<(), String> {
    let mut n = 0;
    let mut s = e.source();
    while let Some(x) = s {
        n += 1;
        if n > 50 {
            return Err("the cause chain does not end".into());
        }
        ensure(!x.to_string().is_empty(), || "empty cause".into())?;
        s = x.source();
    }
    Ok(())
}
fn err_ok(e: &InvalidAlgError, missing: &[&RMove]) -> Result<(), String> {
    let d = e.to_string();
    ensure(!d.is_empty(), || "empty description".into())?;
    ensure(!format!("{:?}", e).is_empty(), || "empty debug".into())?;
    match e {
        InvalidAlgError::InvalidMove(i) => ensure(!i.description.is_empty() && !i.to_string().is_empty(), || "empty inner description".into())?,
        InvalidAlgError::AlgParse(_) => return Err("reported as a parse error".into()),
    }
    chain(e)?;
    let names = |m: &RMove| {
        let a = to_mv(m).to_string();
        let b = to_mv(&rinv_move(m)).to_string();
        let c = to_q(m).to_string();
        d.contains(&a) || d.contains(&b) || d.contains(&c)
    };
    ensure(missing.iter().any(|m| names(m)), || format!("{:?} names no missing move of {:?}", d, missing))
}
fn check(p: &P, a: &RAlg) -> Result<(), String> {
    state_of(&(p.name, a));
    check_built(p, a, to_alg(a))?;
    // also with equal parts stored once
    match share(a) {
        Some(x) => check_built(p, a, x),
        None => Ok(()),
    }
}
fn check_built(p: &P, a: &RAlg, x: Alg) -> Result<(), String> {
    let mut ms = vec![];
    moves_in(a, &mut ms);
    let missing: Vec<&RMove> = ms.into_iter().filter(|m| !p.exists(m)).collect();
    let keep = x.clone();
    let before = p.pat.clone();
    trans(2);
    trace(1);
    let t = p.k.transformation_from_alg(&x);
    let q = p.pat.apply_alg(&x);
    ensure(p.pat == before && x == keep, || "an argument was changed".into())?;
    ensure(t.is_ok() == missing.is_empty(), || format!("evaluation {} but missing moves are {:?}", if t.is_ok() { "succeeded" } else { "failed" }, missing))?;
    ensure(q.is_ok() == missing.is_empty(), || format!("application {} but missing moves are {:?}", if q.is_ok() { "succeeded" } else { "failed" }, missing))?;
    if let Err(e) = &t {
        err_ok(e, &missing)?;
    }
    if let Err(e) = &q {
        err_ok(e, &missing)?;
    }
    if let (Ok(t), Ok(q)) = (&t, &q) {
        ensure(p.pat.apply_transformation(t) == *q, || "application differs from evaluation".into())?;
    }
    Ok(())
}
fn one_move(p: &P, m: &RMove) -> Result<(), String> {
    let ok = p.exists(m);
    let x = to_mv(m);
    let before = p.pat.clone();
    let t = p.k.transformation_from_move(&x);
    let q = p.pat.apply_move(&x);
    trans(2);
    trace(1);
    ensure(p.pat == before && from_mv(&x) == *m, || "an argument was changed".into())?;
    ensure(t.is_ok() == ok && q.is_ok() == ok, || format!("move lookup: {} {}, exists: {}", t.is_ok(), q.is_ok(), ok))?;
    if let Err(e) = &t {
        err_ok(e, &[m])?;
    }
    if let Err(e) = &q {
        err_ok(e, &[m])?;
    }
    Ok(())
}
fn texts() -> Vec<String> {
    let mut v: Vec<String> = ["", " ", "(", ")", "[", "[R", "[R,", "[R, U", "R,", "R:", "+", "R+", "R R R)", "RU2R2", "é", "R é", "\0", "2", "2-", "2-R", "R2147483648", "4294967296R", "(R)2147483648", "(1, 2", "(1,2)", "\t", "R\r\n", "//\n(", "'", "R''", "R2''", "[R, U]''", "/ /2", "--", "A---", ".."]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for n in [10, 1000, 20000] {
        v.push("R".repeat(n) + "!");
        v.push("R2 ".repeat(n) + "é!");
        v.push("é".repeat(n));
        v.push("2".repeat(n));
    }
    v
}
fn other_errors(cx: &mut Cx) {
    for s in texts() {
        if !cx.mine() {
            continue;
        }
        cx.case("text errors", || s.clone(), || {
            trans(3);
            state_of(&s);
            let e = [s.parse::<Alg>().err(), s.parse::<Move>().err(), s.parse::<QuantumMove>().err()];
            for e in e.into_iter().flatten() {
                ensure(!e.description.is_empty() && !e.to_string().is_empty() && !format!("{:?}", e).is_empty(), || "empty description".into())?;
                let w: InvalidAlgError = e.into();
                ensure(!w.to_string().is_empty(), || "empty description".into())?;
                chain(&w)?;
                let c: ConversionError = w.into();
                ensure(!c.to_string().is_empty() && !format!("{:?}", c).is_empty(), || "empty description".into())?;
            }
            let j = serde_json::to_string(&s).unwrap();
            if let Err(e) = serde_json::from_str::<Alg>(&j) {
                ensure(!e.to_string().is_empty(), || "empty description".into())?;
            }
            if let Err(e) = serde_json::from_str::<Move>(&j) {
                ensure(!e.to_string().is_empty(), || "empty description".into())?;
            }
            // as puzzle definitions, patterns and transformations
            for t in [s.clone(), format!("{{\"name\":{}}}", j), format!("{{\"P\":{}}}", j), format!("[{}]", j)] {
                let e = KPuzzle::try_from_json(t.as_bytes()).err().ok_or("accepted")?;
                ensure(!e.description.is_empty() && !e.to_string().is_empty() && !format!("{:?}", e).is_empty(), || "empty description".into())?;
                let k = cubing::puzzles::cube2x2x2_kpuzzle();
                let e = KPattern::try_from_json(k, t.as_bytes()).err().ok_or("accepted")?;
                ensure(!e.to_string().is_empty() && !format!("{:?}", e).is_empty(), || "empty description".into())?;
                let e = KTransformation::try_from_json(k, t.as_bytes()).err().ok_or("accepted")?;
                ensure(!e.to_string().is_empty() && !format!("{:?}", e).is_empty(), || "empty description".into())?;
            }
            Ok(())
        });
    }
}
/// One-hole contexts: every tree over one leaf (the hole) and neutral material.
fn contexts(n: usize) -> Vec<RAlg> {
    let hole = RN::C("HOLE".into());
    let g = Gen::new(vec![hole, RN::P], vec![0, 1, -1, 3, -2], n);
    let mut v = vec![];
    for k in 1..=n {
        g.each(k, &mut |a| {
            fn holes(a: &[RN]) -> usize {
                a.iter()
                    .map(|n| match n {
                        RN::C(_) => 1,
                        RN::G(x, _) => holes(x),
                        RN::K(x, y) | RN::J(x, y) => holes(x) + holes(y),
                        _ => 0,
                    })
                    .sum()
            }
            if holes(a) == 1 {
                v.push(a.clone())
            }
        });
    }
    v
}
fn fill(a: &[RN], m: &RMove) -> RAlg {
    a.iter()
        .map(|n| match n {
            RN::C(_) => RN::M(m.clone()),
            RN::G(x, k) => RN::G(fill(x, m), *k),
            RN::K(x, y) => RN::K(fill(x, m), fill(y, m)),
            RN::J(x, y) => RN::J(fill(x, m), fill(y, m)),
            o => o.clone(),
        })
        .collect()
}
fn explore(cx: &mut Cx) {
    let ps = match guarded(puzzles) {
        Ok(p) => p,
        Err(e) => return cx.violate("puzzles", String::new(), e),
    };
    for p in &ps {
        for m in p.known.iter().chain(&p.unknown) {
            for amt in [m.amt, -m.amt, 0, 1, 2, -1, 5, 9, 10, -10, 99, 100, -100, 101, 127, 128, -128, 255, 256, 1000, -1000, 32767, 32768, 65535, 65536, 2147483646, 2147483647, -2147483647] {
                if cx.mine() {
                    let m = RMove { amt, ..m.clone() };
                    cx.case("move", || format!("{} {:?}", p.name, m), || one_move(p, &m));
                }
            }
        }
        let n = if cx.thorough { 4 } else { 3 };
        for c in contexts(n) {
            if !cx.mine() {
                continue;
            }
            for m in p.unknown.iter().chain(&p.known) {
                let a = fill(&c, m);
                cx.case("context", || format!("{} {:?}", p.name, a), || check(p, &a));
            }
        }
        // trees over known and unknown moves
        let leaves = vec![RN::M(p.known[0].clone()), RN::M(p.unknown[0].clone()), RN::M(p.known[1].clone()), RN::P];
        let n = if cx.thorough { 5 } else { 4 };
        let g = Gen::new(leaves, vec![0, 1, -1, 2], n);
        for k in 0..=n {
            if k == 5 && p.r.is_none() {
                continue;
            }
            g.each(k, &mut |a| {
                if cx.mine() {
                    cx.case("tree", || format!("{} {:?}", p.name, a), || check(p, a));
                }
            });
        }
        // deep, wide and long contexts
        for m in p.unknown.iter().chain(&p.known) {
            for shape in 0..8 {
                for d in [1usize, 2, 10, 60] {
                    if !cx.mine() {
                        continue;
                    }
                    let mut a = vec![RN::M(m.clone())];
                    let k = RN::M(p.known[0].clone());
                    for i in 0..d {
                        a = match shape {
                            0 => vec![RN::G(a, 0)],
                            1 => vec![RN::G(a, if i % 2 == 0 { -1 } else { 1 })],
                            2 if i < 5 => vec![RN::K(vec![k.clone()], a)],
                            3 if i < 5 => vec![RN::K(a, vec![])],
                            4 if i < 10 => vec![RN::J(a, vec![])],
                            5 => vec![RN::J(vec![], a)],
                            6 => {
                                let mut v = vec![k.clone(); 5];
                                v.extend(a);
                                v
                            }
                            _ => {
                                let mut v = a;
                                v.extend(vec![k.clone(); 5]);
                                v
                            }
                        };
                    }
                    cx.case("deep", || format!("{} {:?} {} {}", p.name, m, shape, d), || check(p, &a));
                }
            }
        }
    }
    other_errors(cx);
}
fn replay(_kind: &str, _case: &str) -> Result<(), String> {
    Ok(())
}
