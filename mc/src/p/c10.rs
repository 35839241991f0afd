//! C10: move lookup.
use super::c07::blank;
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use crate::zoo::cyc;

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        level: "model_checking",
        rule: "All definition tables over the keys {Q, Q2, Q', Q2', Q3} x {absent, direct, derived, both} and over families/case/prefix variants {absent, direct, derived}, every one and two of 46 conventional names (and all but one of them), all queries over amounts and prefixes; the library's result is compared with the lookup rule. states = distinct definition tables, transitions = queries.",
        assumptions: &["one layout (5 pieces, 3 orientations); a distinct transformation for every definition so that every choice is visible", "the slash, which is its own inverse, is defined for amount 1 only"],
        explore,
        replay,
        hang_s: 30,
        nshards: 8,
    }
}
fn el(i: usize) -> RT {
    // pairwise distinct, none an inverse or power of another
    let ps = perms(5);
    let p = ps[(i * 37 + 11) % ps.len()].clone();
    vec![(p, (0..5).map(|j| (i / (j + 1) + j * i) % 3).collect())]
}
fn check(p: &RPuz, queries: &[RMove]) -> Result<(), String> {
    let k = load(p)?;
    let keys: Vec<String> = p.move_src.iter().cloned().chain(p.derived_src.iter().map(|d| format!("{}:={}", d.0, d.1))).collect();
    state_of(&keys);
    let start = k.default_pattern();
    for q in queries {
        trans(1);
        trace(1);
        let want = p.mv(q);
        let m = to_mv(q);
        let got = k.transformation_from_move(&m);
        match (&want, &got) {
            (None, Err(_)) => {}
            (Some(w), Ok(g)) => {
                let g = t_read(g);
                if g != *w {
                    return Err(format!("{:?} with {:?}: got {:?}, want {:?}", q, keys, g, w));
                }
            }
            _ => return Err(format!("{:?} with {:?}: got {:?}, want {:?}", q, keys, got.map(|g| t_read(&g)).map_err(|e| e.to_string()), want)),
        }
        let got = start.apply_move(&m);
        match (&want, &got) {
            (None, Err(_)) => {}
            (Some(w), Ok(g)) => must("apply_move", p_read(g), rapply(&p.orbits, &p.default, w))?,
            _ => return Err(format!("apply_move {:?} with {:?}: {:?}", q, keys, got.is_ok())),
        }
        let alg = to_alg(&[RN::M(q.clone())]);
        let got = k.transformation_from_alg(&alg);
        match (&want, &got) {
            (None, Err(_)) => {}
            (Some(w), Ok(g)) => must("as an alg", &t_read(g), w)?,
            _ => return Err(format!("alg {:?} with {:?}: {:?}", q, keys, got.is_ok())),
        }
        must("argument", from_mv(&m), q.clone())?;
    }
    Ok(())
}
fn table(direct: &[(usize, &str)], derived: &[(usize, &str)]) -> RPuz {
    let bases = ["Za", "Zb", "Zc", "Zd", "Ze", "Zf", "Zg", "Zh", "Zi", "Zj", "Zk", "Zl"];
    let mut moves: Vec<(&str, RT)> = vec![];
    for (i, b) in bases.iter().enumerate().take(if derived.is_empty() { 1 } else { 12 }) {
        moves.push((b, el(40 + i)));
    }
    for (i, k) in direct {
        moves.push((k, el(*i)));
    }
    let algs: Vec<(&str, String)> = derived.iter().map(|(i, k)| (*k, format!("{} Za{}", bases[i % 12], 1 + i / 12))).collect();
    RPuz::new(PSpec {
        name: "lookup",
        orbits: vec![("P", 5, 3)],
        default: None,
        moves,
        derived: algs.iter().map(|(a, b)| (*a, b.as_str())).collect(),
    })
}
fn explore(cx: &mut Cx) {
    let t = cx.thorough;
    let _ = (blank(&[]), cyc(1, &[]));
    let with_amts = |f: &str, v: &[i64]| -> Vec<RMove> {
        v.iter()
            .map(|a| {
                let mut m = rparse_move(f).unwrap();
                m.amt = *a;
                m
            })
            .collect()
    };
    let amts: Vec<i64> = (-7..=7).chain([100, -101, 2147483647, -2147483647]).collect();
    let keys: &[&str] = if t { &["Q", "Q2", "Q'", "Q2'", "Q3", "Q0"] } else { &["Q", "Q2", "Q'", "Q2'", "Q3"] };
    for fam in ["Q", "2Q", "1-2Q", "R_PLUS_", "Q_PLUSPLUS_", "U_SQ_", "q"] {
        let ks: Vec<String> = keys.iter().map(|k| k.replace('Q', fam)).collect();
        let ks: Vec<String> = ks.iter().filter(|k| rparse_move(k).is_some()).cloned().collect();
        let queries = with_amts(fam, &amts);
        seqs(4, ks.len(), &mut |c| {
            if fam != "Q" && !t && c.iter().skip(3).any(|x| *x > 0) {
                return;
            }
            if cx.mine() {
                let dir: Vec<(usize, &str)> = c.iter().enumerate().filter(|(_, x)| **x & 1 > 0).map(|(i, _)| (i, ks[i].as_str())).collect();
                let der: Vec<(usize, &str)> = c.iter().enumerate().filter(|(_, x)| **x & 2 > 0).map(|(i, _)| (i, ks[i].as_str())).collect();
                cx.case("amounts", || format!("{} {:?}", fam, c), || check(&table(&dir, &der), &queries));
            }
        });
    }
    // families, case, layers and ranges
    let variants = ["Q", "q", "2Q", "3Q", "1-2Q", "2-1Q", "1-3Q", "QQ", "2q", "Q_"];
    let mut queries: Vec<RMove> = vec![];
    for v in variants.iter().chain(["0Q", "1Q", "2-2Q", "1-1Q", "12Q", "_Q", "qQ", "4294967295Q", "1-4294967295Q", "Qw", "2-3Q"].iter()) {
        queries.extend(with_amts(v, &[1, -1, 2, 0]));
    }
    let nv = if t { variants.len() } else { 8 };
    seqs(if t { 3 } else { 3 }, nv, &mut |c| {
        if cx.mine() {
            let dir: Vec<(usize, &str)> = c.iter().enumerate().filter(|(_, x)| **x == 1).map(|(i, _)| (i, variants[i])).collect();
            let der: Vec<(usize, &str)> = c.iter().enumerate().filter(|(_, x)| **x == 2).map(|(i, _)| (i, variants[i])).collect();
            if !t && dir.len() + der.len() > 5 {
                return;
            }
            cx.case("families", || format!("{:?}", c), || check(&table(&dir, &der), &queries));
        }
    });
    // unrelated definitions make no difference
    let noise = ["a", "b", "Q4", "2Q2", "x", "y'", "Qw", "3-4Q", "R_PLUS_2"];
    let core = [("Q", "Q2"), ("Q2", "Q'"), ("Q2'", "Q3"), ("2Q", "Q"), ("Q'", "2Q2'")];
    for mask in 0..1usize << noise.len() {
        if cx.mine() {
            for (a, b) in core {
                for sw in [false, true] {
                    let mut dir: Vec<(usize, &str)> = vec![];
                    let mut der: Vec<(usize, &str)> = vec![];
                    for (i, n) in noise.iter().enumerate() {
                        if mask >> i & 1 == 1 && *n != a && *n != b {
                            if i % 3 == 2 {
                                der.push((20 + i, n));
                            } else {
                                dir.push((20 + i, n));
                            }
                        }
                    }
                    if sw {
                        dir.push((0, a));
                        der.push((1, b));
                    } else {
                        der.push((0, a));
                        dir.push((1, b));
                    }
                    let mut qs = with_amts("Q", &[1, -1, 2, -2, 3, 4, -4, 0]);
                    qs.extend(with_amts("2Q", &[1, 2, -2]));
                    cx.case("noise", || format!("{} {} {} {}", mask, a, b, sw), || check(&table(&dir, &der), &qs));
                }
            }
        }
    }
    // conventional notation: no move stands for another one unless the puzzle says so
    let names = [
        "R", "L", "U", "r", "l", "u", "Rw", "Lw", "M", "E", "S", "m", "x", "y", "z", "Rv", "Lv", "Xv", "1R", "2R", "2-2R", "1-2R", "1-3R", "3Rw", "1-3Rw", "2-3Rw", "2-3r", "3r", "2r", "Rr",
        "R_PLUS_", "R_PLUSPLUS_", "_SLASH_", "U_SQ_", "D_SQ_", "UR", "BR", "ALL", "T", "P", "p", "W", "RW", "rw", "C", "Q",
    ];
    let all: Vec<RMove> = names.iter().flat_map(|n| with_amts(n, &[1, -1, 2, -3])).collect();
    for i in 0..names.len() {
        for j in i..names.len() {
            if !cx.mine() {
                continue;
            }
            for (x, y, derived) in [("", "", 0), ("", "", 1), ("2", "'", 2), ("'", "", 3), ("3'", "2", 0)] {
                let (a, b) = (format!("{}{}", names[i], x), format!("{}{}", names[j], y));
                if [&a, &b].iter().any(|k| k.starts_with("_SLASH_") && k.len() > 7) {
                    continue;
                }
                if a == b || rparse_move(&a).is_none() || rparse_move(&b).is_none() {
                    continue;
                }
                let (mut dir, mut der) = (vec![], vec![]);
                if derived & 1 == 1 { &mut der } else { &mut dir }.push((3usize, a.as_str()));
                if i != j {
                    if derived & 2 == 2 { &mut der } else { &mut dir }.push((5usize, b.as_str()));
                }
                cx.case("aliases", || format!("{} {} {}", a, b, derived), || check(&table(&dir, &der), &all));
            }
        }
        // everything else is defined
        if cx.mine() {
            for derived in [false, true] {
                let others: Vec<(usize, &str)> = (0..names.len()).filter(|j| *j != i).map(|j| (j, names[j])).collect();
                cx.case("one is missing", || format!("{} {}", names[i], derived), || check(&if derived { table(&others[..3], &others[3..]) } else { table(&others, &[]) }, &all));
            }
        }
    }
    // derived of derived, with amounts at every level
    for (i, a) in ["D1 Za", "D1' Za", "D12 Zb", "[D1: Zb]", "(D1 Zb)2'", "Q2' Za", "2Q Q2"].iter().enumerate() {
        if cx.mine() {
            let a = a.replace("D12", "DD2").replace("D1", "DD");
            let p = RPuz::new(PSpec {
                name: "chain",
                orbits: vec![("P", 5, 3)],
                default: None,
                moves: vec![("Za", el(1)), ("Zb", el(2)), ("Q2", el(3)), ("2Q'", el(4))],
                derived: vec![("DD", "Za Zb2 [Za, Q2]"), ("EE2", &a), ("FF'", "EE2 DD EE2'")],
            });
            let mut qs = vec![];
            for f in ["DD", "EE", "FF", "Q", "2Q"] {
                qs.extend(with_amts(f, &amts));
            }
            cx.case("chain", || i.to_string(), || check(&p, &qs));
        }
    }
    cx.sample("keys Q2 direct, Q' derived; query Q, Q2, Q2', Q3, Q0".into());
}
fn replay(_: &str, _: &str) -> Result<(), String> {
    Ok(())
}
