//! C07: transformations form a group with the documented composition.
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use cubing::alg::*;
use cubing::kpuzzle::*;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        level: "model_checking",
        rule: "Complete groups of small orbit layouts (all elements, all pairs, all triples), every orientation count 1..107 with every pair of twists, piece counts up to 255 with every rotation, multi-orbit layouts; every product, inverse and power computed by the library and by the reference. states = distinct (layout, transformation), transitions = compositions.",
        assumptions: &["layouts beyond those enumerated behave like them: orbits are processed independently"],
        explore,
        replay,
        hang_s: 30,
        nshards: 8,
    }
}
pub fn layout(l: &[(usize, usize)], moves: Vec<(&str, RT)>) -> (RPuz, Vec<ROrbit>) {
    let o = orb(l);
    let r = RPuz::new(PSpec { name: "layout", orbits: o.iter().map(|o| (o.name.as_str(), o.np, o.no)).collect(), default: None, moves, derived: vec![] });
    (r, o)
}
pub fn blank(l: &[(usize, usize)]) -> Result<(KPuzzle, Vec<ROrbit>), String> {
    let (r, o) = layout(l, vec![]);
    Ok((load(&r)?, o))
}
/// name of the i-th move: letters only
pub fn letters(mut i: usize) -> String {
    let mut s = String::from("M");
    loop {
        s.push((b'a' + (i % 26) as u8) as char);
        i /= 26;
        if i == 0 {
            return s;
        }
    }
}
fn pair(k: &KPuzzle, o: &[ROrbit], a: &RT, b: &RT) -> Result<(), String> {
    let (x, y) = (t_make(k, o, a)?, t_make(k, o, b)?);
    pair_l(o, a, b, &x, &y).map(|_| ())
}
fn pair_l(o: &[ROrbit], a: &RT, b: &RT, x: &KTransformation, y: &KTransformation) -> Result<KTransformation, String> {
    trans(1);
    let z = x.apply_transformation(y);
    let w = rcomp(o, a, b);
    if t_read(&z) != w {
        return Err(format!("{:?} then {:?}: got {:?}, want {:?}", a, b, t_read(&z), w));
    }
    Ok(z)
}
fn single(k: &KPuzzle, o: &[ROrbit], a: &RT) -> Result<(), String> {
    state_of(&(o, a));
    trace(1);
    trans(5);
    let x = t_make(k, o, a)?;
    must("content", t_read(&x), a.clone())?;
    let id = k.identity_transformation();
    must("identity", t_read(&id), rid(o))?;
    let i = x.invert();
    must("inverse", t_read(&i), rtinv(o, a))?;
    must("id·a", t_read(&id.apply_transformation(&x)), a.clone())?;
    must("a·id", t_read(&x.apply_transformation(&id)), a.clone())?;
    ensure(x.apply_transformation(&i) == id && i.apply_transformation(&x) == id, || "inverse does not cancel".into())?;
    must("inverse of the inverse", t_read(&i.invert()), a.clone())?;
    must("argument", t_read(&x), a.clone())?;
    Ok(())
}
fn amounts(order: i64, full: bool) -> Vec<i64> {
    let r = if full { 2 * order + 3 } else { 4 };
    let mut v: Vec<i64> = (-r..=r).collect();
    for k in [4, 7, 8, 15, 16, 23, 24, 30] {
        for d in [-1i64, 0, 1] {
            v.push((1 << k) + d);
            v.push(-(1 << k) + d);
        }
    }
    v.extend([i32::MAX as i64, i32::MAX as i64 - 1, -(i32::MAX as i64), -(i32::MAX as i64) + 1, 1000000007, -999999937]);
    v
}
fn powers(l: &[(usize, usize)], a: &RT, full: bool) -> Result<(), String> {
    let (r, o) = layout(l, vec![("A", a.clone())]);
    let k = load(&r)?;
    let mut ord = 1;
    let id = rid(&o);
    let mut t = a.clone();
    while t != id {
        t = rcomp(&o, &t, a);
        ord += 1;
    }
    let q = Arc::new(QuantumMove::new("A", None));
    for n in amounts(ord, full && ord < 60) {
        trans(1);
        trace(1);
        let want = rpow(&o, a, n);
        let m = Move { quantum: q.clone(), amount: n as i32 };
        let g = k.transformation_from_move(&m).map_err(|e| e.to_string())?;
        if t_read(&g) != want {
            return Err(format!("move repeated {} times: got {:?}, want {:?}", n, t_read(&g), want));
        }
        let alg = Alg { nodes: vec![Grouping { alg: Arc::new(Alg { nodes: vec![Move { quantum: q.clone(), amount: 1 }.into()] }), amount: n as i32 }.into()] };
        let g = k.transformation_from_alg(&alg).map_err(|e| e.to_string())?;
        if t_read(&g) != want {
            return Err(format!("grouping repeated {} times: got {:?}, want {:?}", n, t_read(&g), want));
        }
        let g = k.default_pattern().apply_move(&m).map_err(|e| e.to_string())?;
        if p_read(&g) != rapply(&o, &rsolved(&o), &want) {
            return Err(format!("pattern after the move repeated {} times: {:?}", n, p_read(&g)));
        }
    }
    Ok(())
}
/// Powers of transformations of any order, beyond what any number type holds.
fn orders(l: &[(usize, usize)], seed: usize) -> Result<(), String> {
    let o = orb(l);
    let a: RT = l.iter().enumerate().map(|(q, &(np, no))| ((0..np).map(|i| (i + 1 + (q + seed) % np.max(2)) % np).collect(), (0..np).map(|i| if i == (q + seed) % np { 1 % no } else { 0 }).collect())).collect();
    let (r, _) = layout(l, vec![("A", a.clone())]);
    let k = load(&r)?;
    let q = Arc::new(QuantumMove::new("A", None));
    let start = rsolved(&o);
    for n in amounts(1, false) {
        let want = rpow_cycles(&o, &a, n);
        for (q, x) in o.iter().enumerate() {
            if x.np * x.no < 200 {
                must("two references (model bug)", rpow(&o[q..=q], &vec![a[q].clone()], n), vec![want[q].clone()])?;
            }
        }
        trans(1);
        trace(1);
        state_of(&want);
        let m = Move { quantum: q.clone(), amount: n as i32 };
        let g = k.transformation_from_move(&m).map_err(|e| e.to_string())?;
        must("move repeated", t_read(&g), want.clone()).map_err(|e| format!("{} times: {}", n, e))?;
        let alg = Alg { nodes: vec![Grouping { alg: Arc::new(Alg { nodes: vec![Move { quantum: q.clone(), amount: 1 }.into()] }), amount: n as i32 }.into()] };
        let g = k.transformation_from_alg(&alg).map_err(|e| e.to_string())?;
        must("grouping repeated", t_read(&g), want.clone()).map_err(|e| format!("{} times: {}", n, e))?;
        let g = k.default_pattern().apply_alg(&alg).map_err(|e| e.to_string())?;
        must("pattern", p_read(&g), rapply(&o, &start, &want)).map_err(|e| format!("{} times: {}", n, e))?;
        let m2 = Move { quantum: q.clone(), amount: -(n as i32) };
        let g = k.transformation_from_move(&m).map_err(|e| e.to_string())?.apply_transformation(&k.transformation_from_move(&m2).map_err(|e| e.to_string())?);
        ensure(g == k.identity_transformation(), || format!("{} times and back", n))?;
    }
    Ok(())
}
fn explore(cx: &mut Cx) {
    let primes = [2usize, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61];
    let large = [251usize, 241, 239, 233, 229, 227, 223, 211, 199, 197];
    let near = [255usize, 254, 253, 251, 247];
    for set in [&primes[..], &large[..], &near[..]] {
        for n in 1..=set.len() {
            for no in [1usize, 2, 3, 107] {
                for seed in 0..if cx.thorough { 3 } else { 1 } {
                    if cx.mine() {
                        let l: Vec<(usize, usize)> = set[..n].iter().map(|p| (*p, no)).collect();
                        cx.case("orders", || format!("{:?} {}", l, seed), || orders(&l, seed));
                    }
                }
            }
        }
    }
    for no in [1usize, 2, 12, 105, 106, 107] {
        for np in 1..=if cx.thorough { 40 } else { 12 } {
            if cx.mine() {
                let l: Vec<(usize, usize)> = (0..np).map(|i| (1 + (i * 7 + np) % 30, 1 + (no + i) % 107)).collect();
                cx.case("orders", || format!("{:?}", l), || orders(&l, no));
            }
        }
    }
    let t = cx.thorough;
    let mut groups: Vec<(Vec<(usize, usize)>, bool)> = vec![
        (vec![], true),
        (vec![(0, 1)], true),
        (vec![(1, 1)], true),
        (vec![(1, 5)], true),
        (vec![(2, 3)], true),
        (vec![(3, 2)], true),
        (vec![(4, 1)], true),
        (vec![(2, 2), (2, 2)], true),
        (vec![(2, 2), (0, 3), (1, 4)], true),
        (vec![(1, 2), (3, 1), (1, 3)], true),
        (vec![(2, 6)], true),
        (vec![(3, 3)], t),
        (vec![(4, 2)], t),
        (vec![(5, 1)], t),
        (vec![(2, 12)], t),
        (vec![(3, 4)], false),
        (vec![(3, 2), (2, 3)], false),
    ];
    if t {
        groups.push((vec![(6, 1)], false));
        groups.push((vec![(3, 6)], false));
    }
    for (l, triples) in &groups {
        let (k, o) = match blank(l) {
            Ok(x) => x,
            Err(e) => return cx.violate("setup", format!("{:?}", l), e),
        };
        let els = all_t(&o);
        let lib: Result<Vec<KTransformation>, String> = els.iter().map(|a| t_make(&k, &o, a)).collect();
        let lib = match lib {
            Ok(x) => x,
            Err(e) => return cx.violate("setup", format!("{:?}", l), e),
        };
        for (a, x) in els.iter().zip(&lib) {
            if !cx.mine() {
                continue;
            }
            cx.case("single", || rt_json(&o, a), || single(&k, &o, a));
            if els.len() <= 700 || t {
                cx.case("powers", || rt_json(&o, a), || powers(l, a, els.len() <= 300));
            }
            for (b, y) in els.iter().zip(&lib) {
                cx.case("pair", || format!("{} {}", rt_json(&o, a), rt_json(&o, b)), || {
                    let xy = pair_l(&o, a, b, x, y)?;
                    // into a dirty target
                    let mut dst = y.clone();
                    x.apply_transformation_into(y, &mut dst);
                    ensure(dst == xy, || "apply_transformation_into differs".into())?;
                    trace(1);
                    if *triples && els.len() <= 110 || (*triples && t) {
                        for z in &lib {
                            trans(2);
                            let l = xy.apply_transformation(z);
                            let r = x.apply_transformation(&y.apply_transformation(z));
                            if l != r {
                                return Err(format!("not associative with {:?}", t_read(z)));
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    // every orientation count, every pair of twists
    for no in 1..=107usize {
        let l = [(2, no), (1, 1)];
        let (k, o) = match blank(&l) {
            Ok(x) => x,
            Err(e) => return cx.violate("setup", format!("{:?}", l), e),
        };
        for d in 0..no {
            if !cx.mine() {
                continue;
            }
            for pm in [vec![0, 1], vec![1, 0]] {
                let a: RT = vec![(pm.clone(), vec![d, (d * 7 + 3) % no]), (vec![0], vec![0])];
                cx.case("twist", || rt_json(&o, &a), || single(&k, &o, &a));
                let x = t_make(&k, &o, &a);
                for e in 0..no {
                    let b: RT = vec![(vec![e & 1, 1 - (e & 1)], vec![e, (e + d) % no]), (vec![0], vec![0])];
                    cx.case("twists", || format!("{} {}", rt_json(&o, &a), rt_json(&o, &b)), || {
                        let (x, y) = (x.as_ref().map_err(|e| e.clone())?, t_make(&k, &o, &b)?);
                        trace(1);
                        pair_l(&o, &a, &b, x, &y)?;
                        Ok(())
                    });
                }
            }
            let a: RT = vec![(vec![d % 2, 1 - d % 2], vec![d, (no - d) % no]), (vec![0], vec![0])];
            cx.case("twist powers", || rt_json(&o, &a), || powers(&l, &a, t || no < 20 || d == 1));
        }
    }
    // piece counts
    for np in 1..=255usize {
        for no in [1usize, 2, 3, 107] {
            if !(np < 16 || np > 250 || np % 16 < 2 || t) || !cx.mine() {
                continue;
            }
            let l = [(np, no), (3, 2)];
            let rot = |s: usize, m: usize| -> RT {
                vec![((0..np).map(|i| (i + s) % np).collect(), (0..np).map(|i| (i * m + s) % no).collect()), (vec![1, 2, 0], vec![1, 0, 1])]
            };
            let rev: RT = vec![((0..np).rev().collect(), (0..np).map(|i| i % no).collect()), (vec![0, 2, 1], vec![0, 1, 0])];
            cx.case("pieces", || format!("{} {}", np, no), || {
                let (k, o) = blank(&l)?;
                single(&k, &o, &rev)?;
                for s in 0..np {
                    let a = rot(s, 1);
                    single(&k, &o, &a)?;
                    pair(&k, &o, &a, &rev)?;
                    pair(&k, &o, &rev, &a)?;
                    pair(&k, &o, &a, &rot((s * s + 1) % np, 2))?;
                }
                Ok(())
            });
            if np < 40 || np > 253 {
                cx.case("pieces powers", || format!("{} {}", np, no), || powers(&l, &rot(1, 1), false));
            }
        }
    }
    // many orbits
    for n in 1..=if t { 40 } else { 12 } {
        if cx.mine() {
            let l: Vec<(usize, usize)> = (0..n).map(|i| (i % 4, 1 + (i * 5) % 7)).collect();
            cx.case("orbits", || n.to_string(), || {
                let (k, o) = blank(&l)?;
                let mk = |s: usize| -> RT {
                    o.iter().enumerate().map(|(j, o)| ((0..o.np).map(|i| (i + s + j) % o.np.max(1)).collect(), (0..o.np).map(|i| (i * s + j) % o.no).collect())).collect()
                };
                for s in 0..12 {
                    single(&k, &o, &mk(s))?;
                    for q in 0..12 {
                        trace(1);
                        pair(&k, &o, &mk(s), &mk(q))?;
                    }
                }
                powers(&l, &mk(1), false)
            });
        }
    }
    // values of every size
    for n in crate::zoo::wide_sizes(if t { 1 << 18 } else { 1 << 17 }) {
        if cx.mine() {
            use crate::zoo::*;
            cx.case("wide", || n.to_string(), || {
                let (k, o) = blank(&wide(n))?;
                let a = wide_t(&o, 1);
                single(&k, &o, &a)?;
                for b in wide_single(&o) {
                    single(&k, &o, &b)?;
                    pair(&k, &o, &a, &b)?;
                    pair(&k, &o, &b, &a)?;
                }
                pair(&k, &o, &a, &wide_t(&o, 5))
            });
        }
    }
    cx.sample("all 162² pairs of the wreath product C3 wr S3".into());
}
fn replay(_: &str, _: &str) -> Result<(), String> {
    Ok(())
}
