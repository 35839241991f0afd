//! C11: puzzle definition acceptance.
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use cubing::kpuzzle::*;
use std::collections::BTreeSet;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        level: "model_checking",
        rule: "All dependency digraphs on up to 4 derived moves in several syntactic forms and key forms, unknown moves at every position, long chains, cycles and diamonds, all orientation counts, all single malformations of a directly defined move. Verdicts are compared with the rule on several instances (hash maps visit in different orders); accepted puzzles evaluate every move against the reference. states = distinct definitions, transitions = edges and evaluations.",
        assumptions: &["hash-map iteration order is randomized by the standard library; every labelled digraph is enumerated, so every relative order is reached by some labelling"],
        explore,
        replay,
        hang_s: 30,
        nshards: 8,
    }
}
fn verdicts(json: &str, copies: usize) -> Result<Option<KPuzzle>, String> {
    let mut first: Option<bool> = None;
    let mut last = None;
    for i in 0..copies {
        let r = if i % 2 == 0 {
            KPuzzle::try_from_json(json.as_bytes())
        } else {
            match serde_json::from_str::<KPuzzleDefinition>(json) {
                Ok(d) => KPuzzle::try_new(d),
                Err(e) => return Err(format!("definition does not parse: {}", e)),
            }
        };
        if *first.get_or_insert(r.is_ok()) != r.is_ok() {
            return Err("the verdict differs between identical definitions".into());
        }
        if let Err(e) = &r {
            ensure(!e.description.is_empty() && !e.to_string().is_empty(), || "empty error".into())?;
        }
        last = r.ok();
    }
    Ok(last)
}
fn check(p: &RPuz, ok: bool, copies: usize, evaluate: bool) -> Result<(), String> {
    let j = p.json();
    state_of(&j);
    trace(1);
    let v = verdicts(&j, copies)?;
    if v.is_some() != ok {
        return Err(format!("{} but should be {}", if v.is_some() { "accepted" } else { "refused" }, if ok { "accepted" } else { "refused" }));
    }
    if let (Some(k), true) = (v, evaluate) {
        for m in p.moves.iter().map(|m| &m.0).chain(p.derived.iter().map(|m| &m.0)) {
            trans(1);
            let want = p.mv(m).ok_or("reference cannot evaluate")?;
            let got = k.transformation_from_move(&to_mv(m)).map_err(|e| format!("{:?} refused: {}", m, e))?;
            must("defined move", t_read(&got), want)?;
        }
    }
    Ok(())
}
fn base() -> Vec<(&'static str, RT)> {
    vec![("Za", vec![(vec![1, 2, 0], vec![1, 0, 0])]), ("Zb", vec![(vec![1, 0, 2], vec![0, 1, 1])])]
}
fn mk(moves: Vec<(&str, RT)>, derived: &[(String, String)]) -> RPuz {
    RPuz::new(PSpec {
        name: "def",
        orbits: vec![("P", 3, 2)],
        default: None,
        moves,
        derived: derived.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect(),
    })
}
fn acyclic(n: usize, g: u32) -> bool {
    // g: bit i*n+j = i uses j
    let mut left: BTreeSet<usize> = (0..n).collect();
    loop {
        let free = left.iter().copied().find(|i| !left.iter().any(|j| g >> (i * n + j) & 1 == 1));
        match free {
            Some(i) => {
                left.remove(&i);
            }
            None => return left.is_empty(),
        }
    }
}
fn form(f: usize, m: &str) -> String {
    match f {
        0 => m.to_string(),
        1 => format!("({})2", m),
        2 => format!("[{}, Za]", m),
        3 => format!("[Za, {}]", m),
        4 => format!("[{}: Zb]", m),
        5 => format!("[Zb: {}]", m),
        6 => format!("([Za: [Zb, ({})0]]2 .)'", m),
        7 => format!(". // x\n{}", m),
        8 => format!("[[{}: Za], Zb]'", m),
        _ => format!("({} Za)0", m),
    }
}
/// (key, a way to refer to it)
const KEYSETS: &[[(&str, &[&str]); 4]] = &[
    [("Qa", &["Qa"]), ("Qb", &["Qb"]), ("Qc", &["Qc"]), ("Qd", &["Qd"])],
    [("Qa", &["Qa2'", "Qa'", "Qa0"]), ("Qb2", &["Qb2", "Qb2'"]), ("Qc'", &["Qc'", "Qc"]), ("2Qd", &["2Qd3", "2Qd"])],
    [("Qa", &["Qa"]), ("qa", &["qa"]), ("2Qa", &["2Qa"]), ("1-2Qa", &["1-2Qa"])],
    [("Q++", &["Q++", "Q--"]), ("Q2+", &["Q2+", "Q2-"]), ("D_SQ_", &["D_SQ_2", "D_SQ_'"]), ("Q_", &["Q_5"])],
    [("Q2", &["Q2"]), ("Q3", &["Q3'"]), ("Q4", &["Q4"]), ("Q5'", &["Q5"])],
];
fn explore(cx: &mut Cx) {
    let t = cx.thorough;
    let graphs = |cx: &mut Cx, n: usize, forms: &[usize], sets: &[usize], copies: usize, eval: bool| {
        for g in 0..1u32 << (n * n) {
            if !cx.mine() {
                continue;
            }
            let ok = acyclic(n, g);
            for &ks in sets {
                for &f in forms {
                    let mut der = vec![];
                    for i in 0..n {
                        let mut parts = vec![];
                        for j in 0..n {
                            if g >> (i * n + j) & 1 == 1 {
                                trans(1);
                                let (_, refs) = KEYSETS[ks][j];
                                parts.push(form((f + if f >= 100 { i + j } else { 0 }) % 100 % 10, refs[(i + j) % refs.len()]));
                            }
                        }
                        parts.insert(parts.len() / 2, ["Za", "Zb", "Za Zb", "."][i].to_string());
                        der.push((KEYSETS[ks][i].0.to_string(), parts.join(" ")));
                    }
                    cx.case("digraph", || format!("{} {} {} {}", n, g, ks, f), || check(&mk(base(), &der), ok, copies, eval));
                }
            }
        }
    };
    let all: Vec<usize> = (0..10).chain([100]).collect();
    graphs(cx, 1, &all, &[0, 1, 2, 3, 4], 2, true);
    graphs(cx, 2, &all, &[0, 1, 2, 3, 4], 4, true);
    graphs(cx, 3, &all, &[0, 1, 2, 3, 4], 3, true);
    graphs(cx, 4, if t { &[0, 3, 100] } else { &[100] }, if t { &[0, 1, 3] } else { &[1] }, 2, true);
    if t {
        // 5 derived moves: all graphs with at most one self-dependency-free cycle candidate per row pair
        for g in 0..1u64 << 20 {
            if !cx.mine() {
                continue;
            }
            // 20 off-diagonal bits
            let mut m = [[false; 5]; 5];
            let mut b = 0;
            for i in 0..5 {
                for j in 0..5 {
                    if i != j {
                        m[i][j] = g >> b & 1 == 1;
                        b += 1;
                    }
                }
            }
            let mut left: Vec<usize> = (0..5).collect();
            while let Some(p) = left.iter().position(|&i| !left.iter().any(|&j| m[i][j])) {
                left.remove(p);
            }
            let ok = left.is_empty();
            let names = ["Qa", "Qb", "Qc", "Qd", "Qe"];
            let der: Vec<(String, String)> = (0..5).map(|i| (names[i].to_string(), (0..5).filter(|&j| m[i][j]).map(|j| form(i + j, names[j])).collect::<Vec<_>>().join(" "))).collect();
            cx.case("digraph5", || g.to_string(), || check(&mk(base(), &der), ok, 1, false));
        }
    }
    trees(cx);
    // unknown moves at every position, in every form
    for f in 0..10 {
        for bad in ["X", "Qa2X", "za", "2Za", "Zaa", "1-2Zb", "Za++", "Za2+", "Q_", "/"] {
            for pos in 0..3 {
                if cx.mine() {
                    let mut parts = vec!["Za".to_string(), "Zb".to_string()];
                    parts.insert(pos, form(f, bad));
                    for (k, n) in [("Qa", 1), ("Qb", 2), ("Qc", 3)] {
                        let mut der = vec![];
                        for i in 0..n {
                            der.push((["Qm", "Qn", "Qo"][i].to_string(), "Za2 Zb'".to_string()));
                        }
                        der.push((k.to_string(), parts.join(" ")));
                        let valid = rparse(&parts.join(" ")).is_some();
                        if valid {
                            cx.case("unknown", || format!("{:?}", der), || check(&mk(base(), &der), false, 4, false));
                        }
                    }
                }
            }
        }
    }
    // amount-specific: only exact amounts exist
    for (key, uses, ok) in [
        ("Q2", "Q2", false), ("Q2", "Q2'", false), ("Q2", "Q", false), ("Q2", "Q4", false), ("Q'", "Q", false), ("Q'", "Q2", false),
        ("Q", "Q2", false), ("Q", "Q'", false), ("Q", "Q0", false), ("Q", "Za2'", true), ("Q", "Y2", true), ("Q", "Y2'", true), ("Q", "Y", false),
        ("Q", "Y'", false), ("Q", "Y4", false), ("Q", "Y0", false), ("Q3'", "Y2 Za0", true), ("Q", "", true), ("Q", ". // Q\n", true), ("Q", "()0", true), ("Q", "(Q)0", false), ("Q", "[,]", true),
    ] {
        if cx.mine() {
            let mut m = base();
            m.push(("Y2", vec![(vec![2, 1, 0], vec![1, 1, 0])]));
            let der = vec![(key.to_string(), uses.to_string())];
            cx.case("amounts", || format!("{} {}", key, uses), || check(&mk(m.clone(), &der), ok, 4, true));
        }
    }
    // a direct definition with the same key takes priority and the puzzle is still accepted
    for (key, uses) in [("Za", "Zb"), ("Zb", "Za2 Zb0"), ("Za2", "Zb")] {
        if cx.mine() {
            let der = vec![(key.to_string(), uses.to_string()), ("Qz".to_string(), format!("{} Zb", key))];
            cx.case("shadowed", || key.into(), || check(&mk(base(), &der), true, 4, true));
        }
    }
    // chains, cycles and diamonds of every length
    let nm = |i: usize| super::c07::letters(i);
    for n in 1..=if t { 300 } else { 80 } {
        if cx.mine() {
            let mut der: Vec<(String, String)> = (0..n).map(|i| (nm(i), if i + 1 < n { form(if i % 3 == 0 { 1 } else { 0 }, &nm(i + 1)) } else { "Za".into() })).collect();
            cx.case("chain", || n.to_string(), || check(&mk(base(), &der), true, 2, n <= 40));
            // close a cycle at every distance
            for back in (0..n).step_by(1 + n / 12) {
                let keep = der[n - 1].1.clone();
                der[n - 1].1 = format!("Za {}", nm(back));
                cx.case("cycle", || format!("{} {}", n, back), || check(&mk(base(), &der), false, 2, false));
                der[n - 1].1 = keep;
            }
            // unknown move at the very end
            der[n - 1].1 = "Unknown".into();
            cx.case("chain to unknown", || n.to_string(), || check(&mk(base(), &der), false, 2, false));
            let dia: Vec<(String, String)> = (0..n).map(|i| (nm(i), if i + 1 < n { format!("[{}, Zb] {}'", nm(i + 1), nm(i + 1)) } else { "Za".into() })).collect();
            cx.case("diamond", || n.to_string(), || check(&mk(base(), &dia), true, 2, n <= 6));
        }
    }
    // derived moves that use many moves, defined in many ways; one of them unknown
    for n in (1..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]).chain(if t { vec![511, 512, 1024, 4096] } else { vec![] }) {
        for f in [0, 1, 4, 7] {
            if !cx.mine() {
                continue;
            }
            cx.case("many", || format!("{} {}", n, f), || {
                let b = base();
                let (mut mv, mut names) = (b.clone(), vec![]);
                let keys: Vec<String> = (0..n).map(|i| ["", "2", "1-3", "", "3", "", ""][i % 7].to_string() + "M" + &nm(i) + ["", "", "", "2", "'", "3'", ""][(i + f) % 7]).collect();
                for (i, k) in keys.iter().enumerate() {
                    mv.push((k, b[i % 2].1.clone()));
                    names.push(form(f, k));
                }
                let last = mv.len() - 1;
                mv[last].1 = b[1].1.clone();
                for by in [names.clone(), names.iter().rev().cloned().collect()] {
                    let der = vec![("Qa".to_string(), by.join(" ")), ("Qb".to_string(), "Qa Zb".to_string())];
                    check(&mk(mv.clone(), &der), true, 2, true)?;
                    for at in [0, n / 2, n - 1] {
                        for bad in ["Unknown", "Qb", "Qa"] {
                            let mut by = by.clone();
                            by[at] = form(f, bad);
                            let der = vec![("Qa".to_string(), by.join(" ")), ("Qb".to_string(), "Qa Zb".to_string())];
                            check(&mk(mv.clone(), &der), false, 1, false)?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // orientation counts
    for no in 0..=255usize {
        if cx.mine() {
            for (l, pos) in [(vec![(1, no)], 0), (vec![(2, 3), (1, no)], 1), (vec![(0, no)], 0), (vec![(3, no), (0, 2)], 0), (vec![(2, 2), (2, 2), (0, no)], 2)] {
                let _ = pos;
                let ok = (1..=107).contains(&no);
                cx.case("orientations", || format!("{:?}", l), || {
                    let o = orb(&l);
                    let p = RPuz::new(PSpec { name: "n", orbits: o.iter().map(|o| (o.name.as_str(), o.np, o.no)).collect(), default: None, moves: vec![], derived: vec![] });
                    check(&p, ok, 2, false)
                });
            }
        }
    }
    // directly defined moves: every table of a small orbit
    for np in 0..=3usize {
        for no in 1..=3usize {
            if !cx.mine() {
                continue;
            }
            let mut ps = vec![];
            seqs(np + 2, np, &mut |x| ps.push(x.to_vec()));
            let mut os = vec![];
            seqs(no + 2, np, &mut |x| os.push(x.to_vec()));
            for p in &ps {
                for d in &os {
                    if np == 3 && no > 1 && !t && p.iter().any(|x| *x > 3) {
                        continue;
                    }
                    let mut s = p.clone();
                    s.sort();
                    let ok = s == (0..np).collect::<Vec<_>>() && d.iter().all(|x| *x < no);
                    cx.case("direct", || format!("{} {} {:?} {:?}", np, no, p, d), || {
                        let r = RPuz::new(PSpec {
                            name: "d",
                            orbits: vec![("E", 1, 1), ("P", np, no)],
                            default: None,
                            moves: vec![("A", vec![(vec![0], vec![0]), ((0..np).collect(), vec![0; np])]), ("B", vec![(vec![0], vec![0]), (p.clone(), d.clone())])],
                            derived: vec![("C", "A2")],
                        });
                        check(&r, ok, 1, true)
                    });
                }
            }
        }
    }
    // missing orbits, short arrays
    for (mv, ok) in [
        (r#"{"P":{"permutation":[1,0],"orientationDelta":[0,0]},"E":{"permutation":[0],"orientationDelta":[1]}}"#, true),
        (r#"{"P":{"permutation":[1,0],"orientationDelta":[0,0]}}"#, false),
        (r#"{"E":{"permutation":[0],"orientationDelta":[1]}}"#, false),
        (r#"{}"#, false),
        (r#"{"P":{"permutation":[1],"orientationDelta":[0,0]},"E":{"permutation":[0],"orientationDelta":[1]}}"#, false),
        (r#"{"P":{"permutation":[1,0],"orientationDelta":[0]},"E":{"permutation":[0],"orientationDelta":[1]}}"#, false),
        (r#"{"P":{"permutation":[],"orientationDelta":[]},"E":{"permutation":[0],"orientationDelta":[1]}}"#, false),
        (r#"{"P":{"permutation":[1,0],"orientationDelta":[0,0]},"E":{"permutation":[0],"orientationDelta":[2]}}"#, false),
        (r#"{"P":{"permutation":[1,0],"orientationDelta":[0,0]},"E":{"permutation":[1],"orientationDelta":[0]}}"#, false),
        (r#"{"P":{"permutation":[1,0],"orientationDelta":[0,0]},"E":{"permutation":[0],"orientationDelta":[1]},"X":{"permutation":[9],"orientationDelta":[9]}}"#, true),
    ] {
        if cx.mine() {
            for name in ["A", "A'", "2A", "A2", "/"] {
                let j = format!(
                    r#"{{"name":"m","orbits":[{{"orbitName":"P","numPieces":2,"numOrientations":2}},{{"orbitName":"E","numPieces":1,"numOrientations":2}}],"defaultPattern":{{"P":{{"pieces":[0,1],"orientation":[0,0]}},"E":{{"pieces":[0],"orientation":[0]}}}},"moves":{{"Z":{{"P":{{"permutation":[0,1],"orientationDelta":[0,0]}},"E":{{"permutation":[0],"orientationDelta":[0]}}}},"{}":{}}}}}"#,
                    name, mv
                );
                cx.case("direct shape", || j.clone(), || {
                    trace(1);
                    state_of(&j);
                    let v = verdicts(&j, 3)?;
                    ensure(v.is_some() == ok, || format!("accepted: {}, should be {}", v.is_some(), ok))
                });
            }
        }
    }
    // malformed definition JSON is refused
    let good = mk(base(), &[("Qa".into(), "Za Zb".into())]).json();
    for cut in 0..good.len() {
        if cx.mine() && good.is_char_boundary(cut) {
            cx.case("truncated", || cut.to_string(), || ensure(KPuzzle::try_from_json(good[..cut].as_bytes()).is_err(), || "accepted".into()));
        }
    }
    for (a, b) in [("\"Za\"", "\"Za Zb\""), ("\"Za\"", "\"\""), ("\"Za\"", "\"(Za)\""), ("\"Za Zb\"", "\"Za Zb)\""), ("\"Za Zb\"", "3"), ("[1,2,0]", "[1,2,300]"), ("[1, 2, 0]", "[1, 2, 300]"), ("\"numPieces\":3", "\"numPieces\":256"), ("\"numPieces\":3", "\"numPieces\":-1"), ("\"numPieces\":3", "\"numPieces\":3.5"), ("\"numOrientations\":2", "\"numOrientations\":256")] {
        if cx.mine() {
            let j = good.replacen(a, b, 1);
            if j != good {
                cx.case("malformed", || j.clone(), || ensure(KPuzzle::try_from_json(j.as_bytes()).is_err(), || "accepted".into()));
            }
        }
    }
    cx.sample("Qa := [Za, Qb] Za; Qb2 := (Qc')2; ... closing a cycle through an inverse amount".into());
}
fn uses(a: &[RN], m: &RMove) -> bool {
    a.iter().any(|n| match n {
        RN::M(x) => x.pre == m.pre && x.fam == m.fam,
        RN::G(x, _) => uses(x, m),
        RN::K(x, y) | RN::J(x, y) => uses(x, m) || uses(y, m),
        _ => false,
    })
}
fn show(a: &[RN], f: &dyn Fn(&RMove) -> String) -> String {
    let v: Vec<String> = a
        .iter()
        .map(|n| match n {
            RN::M(m) => f(m),
            RN::G(x, k) => format!("({}){}", show(x, f), match k {
                -1 => "'".to_string(),
                k => k.to_string(),
            }),
            RN::K(x, y) => format!("[{}, {}]", show(x, f), show(y, f)),
            RN::J(x, y) => format!("[{}: {}]", show(x, f), show(y, f)),
            _ => ".".to_string(),
        })
        .collect();
    v.join(" ")
}
/// One derived move defined by every alg tree up to a size over a direct move, itself, and
/// another derived move which is direct / depends back / does not exist.
fn trees(cx: &mut Cx) {
    let keys = [("Qa", "Qb"), ("2Qa", "1-3Qb"), ("1-2Qa", "2Qb"), ("Qa++", "3Qb"), ("2Qa'", "Qb2")];
    let top = if cx.thorough { 6 } else { 5 };
    for (ki, (ka, kb)) in keys.into_iter().enumerate() {
        let top = if ki == 1 { top } else { top - 1 };
        let (ma, mb) = (rparse_move(ka).unwrap(), rparse_move(kb).unwrap());
        let leaves = vec![RN::M(rparse_move("Za").unwrap()), RN::M(ma.clone()), RN::M(mb.clone())];
        let g = Gen::new(leaves, vec![2, -1], top);
        for n in 0..=top {
            g.each(n, &mut |a| {
                if !cx.mine() {
                    return;
                }
                let (ua, ub) = (uses(a, &ma), uses(a, &mb));
                let txt = show(a, &|m| if *m == ma { ka } else if *m == mb { kb } else { "Za" }.to_string());
                for (kind, b, ok) in [(0, Some("Za"), !ua), (1, Some(ka), !ua && !ub), (2, None, !ua && !ub)] {
                    let mut der = vec![(ka.to_string(), txt.clone())];
                    if let Some(b) = b {
                        der.push((kb.to_string(), b.to_string()));
                    }
                    cx.case("definition tree", || format!("{} {} {}", ka, txt, kind), || check(&mk(base(), &der), ok, 1, n <= 3));
                }
            });
        }
    }
}
fn replay(_: &str, _: &str) -> Result<(), String> {
    Ok(())
}
