//! C04: an alg does what its expansion does.
use super::c02::{dbg_alg, leaf};
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use cubing::kpuzzle::*;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        level: "model_checking",
        rule: "All algs up to a size over the moves of a custom puzzle, and all sequences on one where nothing undoes itself, evaluated by the library and by the reference model twice: structurally (powers by order reduction) and, where short enough, as the flat expanded move list applied one at a time. states = distinct resulting transformations and algs, transitions = expanded moves applied.",
        assumptions: &["inside brackets and backwards groupings: the slash is an involution and U_SQ_/D_SQ_ commute on the puzzle used"],
        explore,
        replay,
        hang_s: 20,
        nshards: 8,
    }
}
pub fn check(p: &RPuz, k: &KPuzzle, starts: &[(RP, KPattern)], a: &RAlg, cap: usize) -> Result<(), String> {
    let o = &p.orbits;
    let x = to_alg(a);
    trace(1);
    let want = p.alg(a).expect("reference accepts");
    state_of(&want);
    state_of(a);
    let got = k.transformation_from_alg(&x).map_err(|e| format!("refused: {}", e))?;
    must("transformation", t_read(&got), want.clone())?;
    if let Some(x) = share(a) {
        let got = k.transformation_from_alg(&x).map_err(|e| format!("refused: {}", e))?;
        must("transformation, parts shared", t_read(&got), want.clone())?;
        for (rp, kp) in starts {
            let g = kp.apply_alg(&x).map_err(|e| format!("apply_alg refused: {}", e))?;
            must("apply_alg, parts shared", p_read(&g), rapply(o, rp, &want))?;
        }
    }
    let mut flat = vec![];
    if expand(a, false, cap, &mut flat) {
        trans(flat.len() as u64);
        let mut t = rid(o);
        for m in &flat {
            t = rcomp(o, &t, &p.mv(m).unwrap());
        }
        must("structural vs flat reference (model bug)", t, want.clone())?;
        // the library applying the flat moves one at a time
        if flat.len() <= 24 {
            let mut s = starts[0].1.clone();
            for m in &flat {
                s = s.apply_move(&to_mv(m)).map_err(|e| format!("move {:?} refused: {}", m, e))?;
            }
            must("moves applied one at a time", p_read(&s), rapply(o, &starts[0].0, &want))?;
        }
    } else {
        trans(cap as u64);
    }
    for (rp, kp) in starts {
        let g = kp.apply_alg(&x).map_err(|e| format!("apply_alg refused: {}", e))?;
        must("apply_alg", p_read(&g), rapply(o, rp, &want))?;
        must("input pattern", &p_read(kp), rp)?;
    }
    Ok(())
}
pub fn starts(p: &RPuz, k: &KPuzzle) -> Result<Vec<(RP, KPattern)>, String> {
    let mut v = vec![(p.default.clone(), k.default_pattern())];
    let mut odd = p.default.clone();
    for (i, o) in p.orbits.iter().enumerate() {
        for j in 0..o.np {
            odd[i].0[j] = (j / 2) as u8;
            let d = divisors(o.no);
            let m = d[j % d.len()];
            odd[i].1[j] = (j + 1) % m;
            odd[i].2[j] = if m == o.no { 0 } else { m };
        }
    }
    let kp = p_make(k, &p.orbits, &odd)?;
    v.push((odd, kp));
    Ok(v)
}
const HUGE: [(&str, usize, usize); 4] = [("P", 251, 107), ("Q", 241, 103), ("R", 239, 101), ("S", 233, 97)];
/// One move "A" that rotates four prime-length orbits: its order is 251·241·239·233·(twists) > 2^32.
fn huge() -> Result<KPuzzle, String> {
    let p = RPuz::new(PSpec {
        name: "huge",
        orbits: HUGE.to_vec(),
        default: None,
        moves: vec![("A", HUGE.iter().map(|(_, n, _)| ((0..*n).map(|i| (i + 1) % n).collect(), (0..*n).map(|i| (i == 0) as usize).collect())).collect())],
        derived: vec![("B", "A"), ("T2", "A")],
    });
    load(&p)
}
/// Is `t` exactly A repeated n times?
fn huge_is(t: &KTransformation, n: i64) -> Result<(), String> {
    state_of(&("huge", n));
    trace(1);
    for (o, (_, np, no)) in t.kpuzzle().orbit_info_iter().zip(HUGE) {
        let s = n.rem_euclid(np as i64) as usize;
        let turns = n.div_euclid(np as i64);
        for i in 0..np {
            let p = t.get_permutation_idx(o, i as u8) as usize;
            if p != (i + s) % np {
                return Err(format!("A repeated {} times: position {} gets piece {} instead of {}", n, i, p, (i + s) % np));
            }
            // position i is fed from i + s through positions i..i+s-1, of which position 0 twists by one
            let passed = turns + (i == 0 && s > 0) as i64 + (i > 0 && i + s > np) as i64;
            let d = t.get_orientation_delta(o, i as u8) as i64;
            if d != passed.rem_euclid(no as i64) {
                return Err(format!("A repeated {} times: twist {} at {} instead of {}", n, d, i, passed.rem_euclid(no as i64)));
            }
        }
    }
    Ok(())
}
fn huge_case(k: &KPuzzle, n: i64) -> Result<(), String> {
    let mut m = rparse_move("A").unwrap();
    m.amt = n;
    trans(2);
    huge_is(&k.transformation_from_move(&to_mv(&m)).map_err(|e| e.to_string())?, n)?;
    huge_is(&k.transformation_from_alg(&to_alg(&[RN::G(vec![leaf("A")], n)])).map_err(|e| e.to_string())?, n)?;
    if n % 16 == 0 || n.abs() > 100_000 {
        m.fam = "B".into();
        huge_is(&k.transformation_from_alg(&to_alg(&[RN::M(m)])).map_err(|e| e.to_string())?, n)?;
        if 2 * n.abs() < i32::MAX as i64 {
            let g = RN::G(vec![leaf("T2")], n);
            huge_is(&k.transformation_from_alg(&to_alg(&[g.clone(), leaf("A"), g])).map_err(|e| e.to_string())?, 2 * n + 1)?;
        }
    }
    Ok(())
}
fn explore(cx: &mut Cx) {
    let t = cx.thorough;
    let p = crate::zoo::sq();
    let tiny = crate::zoo::tiny();
    let (k, tk) = match (load(&p), load(&tiny)) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return cx.violate("setup", "zoo".into(), format!("{:?} {:?}", a.err(), b.err())),
    };
    let st = match (starts(&p, &k), starts(&tiny, &tk)) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return cx.violate("setup", "starts".into(), format!("{:?} {:?}", a.err(), b.err())),
    };
    let big: Vec<i64> = vec![
        1, -1, 2, -2, 3, -3, 4, 5, -5, 0, 6, 7, -8, 12, 31, -32, 33, 127, 128, -255, 256, 1023, 1024, -1025, 65535, 65536,
        1 << 20, (1 << 20) + 1, 1 << 30, (1 << 30) - 1, -(1 << 30) - 1, 2147483645, 2147483646, 2147483647, -2147483646, -2147483647,
    ];
    let l1: Vec<RN> = ["A", "B'", "C2", "/", "A++", "A2-"].iter().map(|s| leaf(s)).chain([RN::P, RN::N, RN::C("R".into())]).collect();
    let l2: Vec<RN> = ["A", "B", "F'", "2A", "2-3A'", "T3", "T3'", "D", "E2", "E2'", "D_SQ_2", "U_SQ_'"].iter().map(|s| leaf(s)).collect();
    let l3: Vec<RN> = ["A", "B2"].iter().map(|s| leaf(s)).collect();
    for (leaves, am, n, cap) in [
        (l1, vec![1, -1, 2, -3, 0], if t { 4 } else { 3 }, 400),
        (l2, vec![-1, 2, 0], if t { 4 } else { 3 }, 400),
        (l3, vec![1, -1, 2, -2, 0], if t { 5 } else { 4 }, 2000),
    ] {
        let g = Gen::new(leaves, am, n);
        for q in 0..=n {
            g.each(q, &mut |a| {
                if cx.mine() {
                    cx.case("alg", || dbg_alg(a), || check(&p, &k, &st.0, a, cap));
                }
            });
        }
    }
    // sequences on a puzzle whose slash is of order 3: only the moves of one kind add up
    let free = crate::zoo::free();
    let fk = match load(&free).and_then(|k| starts(&free, &k).map(|s| (k, s))) {
        Ok(a) => a,
        Err(e) => return cx.violate("setup", "free".into(), e),
    };
    let fl: Vec<RN> = ["/", "_SLASH_'", "_SLASH_2", "A", "A'", "A2", "B", "U_SQ_", "U_SQ_'", "D_SQ_2'", "A++", "A--", "A1+", "A2-", "T3", "T3'", "C'", "S", "V2", "V2'"].iter().map(|s| leaf(s)).chain([RN::P, RN::C("/".into())]).collect();
    for len in 1..=if t { 4 } else { 3 } {
        seqs(fl.len(), len, &mut |x| {
            if cx.mine() {
                let a: RAlg = x.iter().map(|i| fl[*i].clone()).collect();
                for a in [a.clone(), vec![RN::G(a.clone(), 1)], vec![RN::G(a.clone(), 2), leaf("/")], vec![leaf("/"), RN::G(a, 0)]] {
                    cx.case("free", || dbg_alg(&a), || check(&free, &fk.0, &fk.1, &a, 400));
                }
            }
        });
    }
    // every amount in every bracket kind, twice nested
    let inner: Vec<RAlg> = vec![vec![leaf("A")], vec![leaf("A"), leaf("B")], vec![leaf("A"), leaf("2A")], vec![RN::K(vec![leaf("A")], vec![leaf("B")])], vec![RN::J(vec![leaf("C")], vec![leaf("A++")])], vec![leaf("/")], vec![leaf("C2'"), RN::P]];
    for x in &inner {
        for a in &big {
            if !cx.mine() {
                continue;
            }
            let g = RN::G(x.clone(), *a);
            let mut v = vec![
                vec![g.clone()],
                vec![leaf("B"), g.clone(), leaf("A")],
                vec![RN::K(vec![g.clone()], vec![leaf("B")])],
                vec![RN::K(vec![leaf("B")], vec![g.clone()])],
                vec![RN::J(vec![g.clone()], vec![leaf("B")])],
                vec![RN::J(vec![leaf("B")], vec![g.clone()])],
            ];
            for b in &big {
                v.push(vec![RN::G(vec![g.clone(), leaf("B")], *b)]);
                v.push(vec![RN::G(vec![g.clone()], *b)]);
            }
            for a in v {
                cx.case("amount", || dbg_alg(&a), || check(&p, &k, &st.0, &a, 3000));
            }
        }
    }
    // every small amount of every move and of groupings, by itself
    for m in -70i64..=70 {
        if cx.mine() {
            for f in ["A", "B", "2A", "2-3A", "C", "D", "A_PLUSPLUS_", "A_PLUS_", "_SLASH_", "F"] {
                let mut mm = rparse_move(f).unwrap();
                mm.amt = m;
                for a in [vec![RN::M(mm.clone())], vec![RN::G(vec![leaf(f), leaf("B")], m)], vec![RN::G(vec![RN::K(vec![leaf(f)], vec![leaf("B")])], m)]] {
                    cx.case("amount", || dbg_alg(&a), || check(&p, &k, &st.0, &a, 20000));
                }
            }
        }
    }
    // the tiny puzzle: everything deeper
    let tl: Vec<RN> = ["A", "B"].iter().map(|s| leaf(s)).collect();
    let n = if t { 5 } else { 4 };
    let g = Gen::new(tl, vec![-1, 2, 3], n);
    for q in 0..=n {
        g.each(q, &mut |a| {
            if cx.mine() {
                cx.case("tiny", || dbg_alg(a), || check(&tiny, &tk, &st.1, a, 4000));
            }
        });
    }
    // a move of order over 2^31: every single amount gives a different transformation
    let hk = huge();
    let hi = if t { 200_000i64 } else { 12_000 };
    let mut amts: Vec<i64> = (0..=hi).flat_map(|n| [n, -n]).collect();
    for i in 0..31 {
        for j in 0..=i {
            for d in [-1i64, 0, 1] {
                for s in [1i64, -1] {
                    let a = s * ((1i64 << i) + (1i64 << j) + d);
                    let b = s * ((1i64 << i) - (1i64 << j) + d);
                    amts.extend([a, b].into_iter().filter(|x| x.abs() <= i32::MAX as i64));
                }
            }
        }
    }
    amts.extend([i32::MAX as i64, -(i32::MAX as i64), 1_000_000_007, 123_456_789, -987_654_321, 1_431_655_765, 715_827_882, -1_431_655_766]);
    amts.sort();
    amts.dedup();
    for a in &amts {
        if cx.mine() {
            cx.case("huge", || a.to_string(), || huge_case(hk.as_ref().map_err(|e| e.clone())?, *a));
        }
    }
    // products of nested amounts
    for i in 2..=if t { 400i64 } else { 80 } {
        if cx.mine() {
            for j in [2i64, 3, 7, 12, 24, 60, 126, 360, 630, 1259, 1260, 2520, -5040] {
                cx.case("huge product", || format!("{} {}", i, j), || {
                    let k = hk.as_ref().map_err(|e| e.clone())?;
                    let a = to_alg(&[RN::G(vec![RN::G(vec![leaf("A")], i)], j)]);
                    huge_is(&k.transformation_from_alg(&a).map_err(|e| e.to_string())?, i * j)?;
                    let a = to_alg(&[RN::G(vec![RN::J(vec![leaf("A")], vec![RN::G(vec![leaf("A")], i)])], j)]);
                    huge_is(&k.transformation_from_alg(&a).map_err(|e| e.to_string())?, i * j)
                });
            }
        }
    }
    // deep towers of what takes no longer to evaluate than to write
    towers(&[0, 1, 2, 6], &leaf("A"), &leaf("B2'"), &depths(if t { 400 } else { 260 }), &mut |s, a| {
        if cx.mine() {
            cx.case("deep tower", || s, || check(&p, &k, &st.0, &a, 500));
        }
    });
    // nested towers
    for d in 1..=if t { 12 } else { 7 } {
        for form in 0..7usize {
            if cx.mine() {
                let mut a: RAlg = vec![leaf("A"), leaf("B'")];
                for i in 0..d {
                    a = match (form + i * (form % 2)) % 6 {
                        0 => vec![RN::G(a, -2), leaf("B")],
                        1 => vec![leaf("/"), RN::K(a, vec![leaf("B")])],
                        2 => vec![RN::K(vec![leaf("C")], a)],
                        3 => vec![RN::J(a, vec![leaf("A")]), RN::P],
                        4 => vec![RN::J(vec![leaf("/")], a)],
                        _ => vec![RN::G(a, 3)],
                    };
                }
                cx.case("tower", || format!("{} {}", d, form), || check(&p, &k, &st.0, &a, 20000));
            }
        }
    }
    cx.sample(dbg_alg(&inner[3]));
    cx.sample(p.json());
}
fn replay(kind: &str, case: &str) -> Result<(), String> {
    match kind {
        "huge" => huge_case(&huge()?, case.parse().map_err(|_| "case")?),
        _ => Ok(()),
    }
}
