//! C14: equality, hashing, independence of copies.
use super::c02::broad;
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use cubing::alg::*;
use cubing::kpuzzle::*;

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        level: "model_checking",
        rule: "All pairs of patterns and of transformations of small layouts, each built along several routes (imported, overwritten entry by entry in two orders from another value, cloned, moved there and back), all single-entry settings of every value with clones taken before and after, all histories of set/clone/copy-back on two values up to a depth, all single-entry differences on the built-in puzzles, all pairs of moves over prefixes x families x amounts and of algs up to a size. states = distinct values, transitions = operations, traces = comparisons with content equality.",
        assumptions: &["values being compared belong to the same puzzle"],
        explore,
        replay,
        hang_s: 60,
        nshards: 8,
    }
}
fn layouts() -> Vec<(&'static str, Vec<ROrbit>, usize)> {
    vec![
        ("2x2", orb(&[(2, 2)]), 2),
        ("3x1", orb(&[(3, 1)]), 3),
        ("1x6", orb(&[(1, 6)]), 1),
        ("1x4+1x4", orb(&[(1, 4), (1, 4)]), 1),
        ("2x3+1x2", orb(&[(2, 3), (1, 2)]), 2),
        ("1x2+0x3+2x2", orb(&[(1, 2), (0, 3), (2, 2)]), 2),
        ("3x2", orb(&[(3, 2)]), 2),
        ("1x107+1x2", orb(&[(1, 107), (1, 2)]), 1),
        ("1x96", orb(&[(1, 96)]), 1),
        ("4x1+2x1", orb(&[(4, 1), (2, 1)]), 2),
    ]
}
fn puz(name: &str, o: &[ROrbit]) -> RPuz {
    RPuz::new(PSpec {
        name,
        orbits: o.iter().map(|x| (x.name.as_str(), x.np, x.no)).collect(),
        default: None,
        moves: vec![],
        derived: vec![],
    })
}
fn set_p(x: &mut KPattern, k: &KPuzzle, q: usize, i: usize, (pc, or, om): (u8, usize, usize)) {
    let ob = &k.data.ordered_orbit_info[q];
    x.set_piece(ob, i as u8, pc);
    x.set_orientation_with_mod(ob, i as u8, &OrientationWithMod { orientation: or as u8, orientation_mod: om as u8 });
    trans(2);
}
fn overwrite_p(x: &mut KPattern, k: &KPuzzle, o: &[ROrbit], p: &RP, rev: bool) {
    let mut at: Vec<(usize, usize)> = (0..o.len()).flat_map(|q| (0..o[q].np).map(move |i| (q, i))).collect();
    if rev {
        at.reverse();
    }
    for (q, i) in at {
        set_p(x, k, q, i, (p[q].0[i], p[q].1[i], p[q].2[i]));
    }
}
fn set_t(x: &mut KTransformation, k: &KPuzzle, q: usize, i: usize, (pc, d): (usize, usize)) {
    let ob = &k.data.ordered_orbit_info[q];
    x.set_permutation_idx(ob, i as u8, pc as u8);
    x.set_orientation_delta(ob, i as u8, d as u8);
    trans(2);
}
fn overwrite_t(x: &mut KTransformation, k: &KPuzzle, o: &[ROrbit], t: &RT, rev: bool) {
    let mut at: Vec<(usize, usize)> = (0..o.len()).flat_map(|q| (0..o[q].np).map(move |i| (q, i))).collect();
    if rev {
        at.reverse();
    }
    for (q, i) in at {
        set_t(x, k, q, i, (t[q].0[i], t[q].1[i]));
    }
}
fn pair_p(a: &KPattern, b: &KPattern, same: bool) -> Result<(), String> {
    trace(1);
    if (a == b) != same || (b == a) != same || (a != b) == same || (b != a) == same {
        return Err(format!("equality is {} for contents that are {}", a == b, if same { "equal" } else { "different" }));
    }
    if same && hash_of(a) != hash_of(b) {
        return Err("equal values hash differently".into());
    }
    Ok(())
}
fn pair_t(a: &KTransformation, b: &KTransformation, same: bool) -> Result<(), String> {
    trace(1);
    if (a == b) != same || (b == a) != same || (a != b) == same || (b != a) == same {
        return Err(format!("equality is {} for contents that are {}", a == b, if same { "equal" } else { "different" }));
    }
    Ok(())
}
/// All entries a pattern place can take.
fn entries(o: &ROrbit, pv: usize) -> Vec<(u8, usize, usize)> {
    let mut v = vec![];
    for p in 0..pv {
        for (x, m) in all_om(o.no) {
            v.push((p as u8, x, m));
        }
    }
    v
}
fn patterns(cx: &mut Cx, name: &str, o: &[ROrbit], pv: usize) {
    let cap = if cx.thorough { 4000 } else { 1100 };
    let ps = all_p(o, pv);
    let ps: Vec<RP> = if ps.len() > cap {
        cx.cap(format!("patterns of {}: first {} of {}", name, cap, ps.len()));
        ps[..cap].to_vec()
    } else {
        ps
    };
    let k = match load(&puz(name, o)) {
        Ok(k) => k,
        Err(e) => return cx.violate("layout", name.into(), e),
    };
    let n = ps.len();
    // routes
    let build = |route: usize| -> Result<Vec<KPattern>, String> {
        (0..n)
            .map(|i| match route {
                0 => p_make(&k, o, &ps[i]),
                1 => {
                    let mut x = p_make(&k, o, &ps[n - 1 - i])?;
                    overwrite_p(&mut x, &k, o, &ps[i], false);
                    Ok(x)
                }
                2 => {
                    let y = p_make(&k, o, &ps[(i * 7 + 3) % n])?;
                    let mut x = y.clone();
                    overwrite_p(&mut x, &k, o, &ps[i], true);
                    drop(y);
                    Ok(x)
                }
                _ => {
                    let x = p_make(&k, o, &ps[i])?;
                    Ok(x.apply_transformation(&k.identity_transformation()).clone())
                }
            })
            .collect()
    };
    let mut vs = vec![];
    for r in 0..4 {
        match guarded(|| build(r)) {
            Ok(v) => vs.push(v),
            Err(e) => return cx.violate("route", format!("{} {}", name, r), e),
        }
    }
    for i in 0..n {
        if !cx.mine() {
            continue;
        }
        cx.case("pattern pairs", || format!("{} {} {:?}", name, i, ps[i]), || {
            state_of(&(name, &ps[i]));
            for r in 0..4 {
                must("readback", p_read(&vs[r][i]), ps[i].clone())?;
                for j in 0..n {
                    pair_p(&vs[(r + 1) % 4][i], &vs[r][j], i == j).map_err(|e| format!("{} vs {:?} (route {})", e, ps[j], r))?;
                }
            }
            Ok(())
        });
        // setting one entry
        for q in 0..o.len() {
            for at in 0..o[q].np {
                for e in entries(&o[q], pv.min(o[q].np)) {
                    cx.case("set one", || format!("{} {:?} {} {} {:?}", name, ps[i], q, at, e), || {
                        let mut want = ps[i].clone();
                        want[q].0[at] = e.0;
                        want[q].1[at] = e.1;
                        want[q].2[at] = e.2;
                        let orig = &vs[0][i];
                        let mut c = orig.clone();
                        let c2 = c.clone();
                        set_p(&mut c, &k, q, at, e);
                        must("set entry", p_read(&c), want.clone())?;
                        must("original after its copy changed", p_read(orig), ps[i].clone())?;
                        must("other copy", p_read(&c2), ps[i].clone())?;
                        let same = want == ps[i];
                        pair_p(&c, orig, same)?;
                        pair_p(&c, &c2, same)?;
                        let c3 = c.clone();
                        drop(c2);
                        // change the copy back: the copy of the copy keeps the change
                        set_p(&mut c, &k, q, at, (ps[i][q].0[at], ps[i][q].1[at], ps[i][q].2[at]));
                        must("copy of the copy", p_read(&c3), want.clone())?;
                        pair_p(&c, orig, true)?;
                        // a piece-only change leaves the orientation
                        let ob = &k.data.ordered_orbit_info[q];
                        c.set_piece(ob, at as u8, e.0);
                        let mut w = ps[i].clone();
                        w[q].0[at] = e.0;
                        must("set piece", p_read(&c), w)?;
                        Ok(())
                    });
                }
            }
        }
    }
}
fn transformations(cx: &mut Cx, name: &str, o: &[ROrbit]) {
    let cap = if cx.thorough { 4000 } else { 1100 };
    let ts = all_t(o);
    let ts: Vec<RT> = if ts.len() > cap {
        cx.cap(format!("transformations of {}: first {} of {}", name, cap, ts.len()));
        ts[..cap].to_vec()
    } else {
        ts
    };
    let k = match load(&puz(name, o)) {
        Ok(k) => k,
        Err(e) => return cx.violate("layout", name.into(), e),
    };
    let n = ts.len();
    let build = |route: usize| -> Result<Vec<KTransformation>, String> {
        (0..n)
            .map(|i| match route {
                0 => t_make(&k, o, &ts[i]),
                1 => {
                    let mut x = t_make(&k, o, &ts[n - 1 - i])?;
                    overwrite_t(&mut x, &k, o, &ts[i], false);
                    Ok(x)
                }
                2 => {
                    let y = t_make(&k, o, &ts[(i * 7 + 3) % n])?;
                    let mut x = y.clone();
                    overwrite_t(&mut x, &k, o, &ts[i], true);
                    drop(y);
                    Ok(x)
                }
                _ => {
                    let y = t_make(&k, o, &ts[n - 1 - i])?;
                    let x = t_make(&k, o, &ts[i])?;
                    Ok(x.apply_transformation(&y).apply_transformation(&y.invert()))
                }
            })
            .collect()
    };
    let mut vs = vec![];
    for r in 0..4 {
        match guarded(|| build(r)) {
            Ok(v) => vs.push(v),
            Err(e) => return cx.violate("route", format!("{} {}", name, r), e),
        }
    }
    for i in 0..n {
        if !cx.mine() {
            continue;
        }
        cx.case("transformation pairs", || format!("{} {} {:?}", name, i, ts[i]), || {
            state_of(&(name, "t", &ts[i]));
            for r in 0..4 {
                must("readback", t_read(&vs[r][i]), ts[i].clone())?;
                for j in 0..n {
                    pair_t(&vs[(r + 1) % 4][i], &vs[r][j], i == j).map_err(|e| format!("{} vs {:?} (route {})", e, ts[j], r))?;
                }
            }
            Ok(())
        });
        for q in 0..o.len() {
            for at in 0..o[q].np {
                for pc in 0..o[q].np {
                    for d in 0..o[q].no {
                        cx.case("set one t", || format!("{} {:?} {} {} {} {}", name, ts[i], q, at, pc, d), || {
                            let mut want = ts[i].clone();
                            want[q].0[at] = pc;
                            want[q].1[at] = d;
                            let orig = &vs[0][i];
                            let mut c = orig.clone();
                            let c2 = c.clone();
                            set_t(&mut c, &k, q, at, (pc, d));
                            must("set entry", t_read(&c), want.clone())?;
                            must("original after its copy changed", t_read(orig), ts[i].clone())?;
                            must("other copy", t_read(&c2), ts[i].clone())?;
                            pair_t(&c, orig, want == ts[i])?;
                            let c3 = c.clone();
                            drop(c2);
                            set_t(&mut c, &k, q, at, (ts[i][q].0[at], ts[i][q].1[at]));
                            must("copy of the copy", t_read(&c3), want.clone())?;
                            pair_t(&c, orig, true)?;
                            let ob = &k.data.ordered_orbit_info[q];
                            c.set_orientation_delta(ob, at as u8, d as u8);
                            let mut w = ts[i].clone();
                            w[q].1[at] = d;
                            must("set twist", t_read(&c), w)?;
                            c.set_permutation_idx(ob, at as u8, pc as u8);
                            must("set place", t_read(&c), want)
                        });
                    }
                }
            }
        }
    }
}
/// Histories over two values a, b of a small layout: set an entry of either, copy one over the
/// other, move through a transformation and compare.
fn histories(cx: &mut Cx) {
    let o = orb(&[(2, 2), (1, 4)]);
    let k = match load(&puz("hist", &o)) {
        Ok(k) => k,
        Err(e) => return cx.violate("layout", "hist".into(), e),
    };
    let sets: Vec<(usize, usize, (u8, usize, usize))> = vec![
        (0, 0, (0, 0, 0)),
        (0, 0, (1, 1, 0)),
        (0, 1, (1, 0, 0)),
        (0, 1, (0, 0, 1)),
        (1, 0, (0, 3, 0)),
        (1, 0, (0, 1, 2)),
    ];
    let ns = sets.len();
    let nops = 2 * ns + 4;
    let t: RT = vec![(vec![1, 0], vec![1, 0]), (vec![0], vec![3])];
    let depth = if cx.thorough { 6 } else { 5 };
    let solved = rsolved(&o);
    for n in 1..=depth {
        let mut todo = vec![];
        seqs(nops, n.min(2), &mut |h| todo.push(h.to_vec()));
        for head in todo {
            if !cx.mine() {
                continue;
            }
            seqs(nops, n - head.len(), &mut |tail| {
                let ops: Vec<usize> = head.iter().chain(tail).copied().collect();
                cx.case("history", || format!("{:?}", ops), || run_hist(&k, &o, &t, &sets, &solved, &ops));
            });
        }
    }
}
fn run_hist(k: &KPuzzle, o: &[ROrbit], t: &RT, sets: &[(usize, usize, (u8, usize, usize))], solved: &RP, ops: &[usize]) -> Result<(), String> {
    let kt = t_make(k, o, t)?;
    let mut a = p_make(k, o, solved)?;
    let mut b = a.clone();
    let (mut ra, mut rb) = (solved.clone(), solved.clone());
    let ns = sets.len();
    for &op in ops {
        trans(1);
        if op < ns {
            let (q, i, e) = sets[op];
            set_p(&mut a, k, q, i, e);
            (ra[q].0[i], ra[q].1[i], ra[q].2[i]) = e;
        } else if op < 2 * ns {
            let (q, i, e) = sets[op - ns];
            set_p(&mut b, k, q, i, e);
            (rb[q].0[i], rb[q].1[i], rb[q].2[i]) = e;
        } else if op == 2 * ns {
            a = b.clone();
            ra = rb.clone();
        } else if op == 2 * ns + 1 {
            b.clone_from(&a);
            rb = ra.clone();
        } else if op == 2 * ns + 2 {
            a.apply_transformation_into(&kt, &mut b);
            rb = rapply(o, &ra, t);
        } else {
            b = b.apply_transformation(&kt);
            rb = rapply(o, &rb, t);
        }
    }
    must("first value", p_read(&a), ra.clone())?;
    must("second value", p_read(&b), rb.clone())?;
    state_of(&("hist", &ra, &rb));
    pair_p(&a, &b, ra == rb)
}
fn builtin(cx: &mut Cx) {
    for (name, k) in [("3x3x3", cubing::puzzles::cube3x3x3_kpuzzle()), ("2x2x2", cubing::puzzles::cube2x2x2_kpuzzle())] {
        let base = k.default_pattern();
        let id = k.identity_transformation();
        let mut at = 0;
        for (q, ob) in k.orbit_info_iter().enumerate() {
            for i in 0..ob.num_pieces {
                if !cx.mine() {
                    continue;
                }
                at += 1;
                cx.case("built-in entry", || format!("{} {} {}", name, q, i), || {
                    let rb = p_read(&base);
                    for v in 0..=255u8 {
                        let mut c = base.clone();
                        c.set_piece(ob, i, v);
                        trans(1);
                        state_of(&(name, q, i, v));
                        let mut w = rb.clone();
                        w[q].0[i as usize] = v;
                        must("piece", p_read(&c), w)?;
                        pair_p(&c, &base, v == rb[q].0[i as usize])?;
                    }
                    for (x, m) in all_om(ob.num_orientations as usize) {
                        let mut c = base.clone();
                        c.set_orientation_with_mod(ob, i, &OrientationWithMod { orientation: x as u8, orientation_mod: m as u8 });
                        trans(1);
                        let mut w = rb.clone();
                        w[q].1[i as usize] = x;
                        w[q].2[i as usize] = m;
                        must("orientation", p_read(&c), w.clone())?;
                        pair_p(&c, &base, w == rb)?;
                    }
                    let rt = t_read(&id);
                    for v in 0..ob.num_pieces {
                        for d in 0..ob.num_orientations {
                            let mut c = id.clone();
                            c.set_permutation_idx(ob, i, v);
                            c.set_orientation_delta(ob, i, d);
                            let mut w = rt.clone();
                            w[q].0[i as usize] = v as usize;
                            w[q].1[i as usize] = d as usize;
                            must("entry", t_read(&c), w)?;
                            pair_t(&c, &id, v == i && d == 0)?;
                        }
                    }
                    Ok(())
                });
            }
        }
        let _ = at;
    }
}
/// Different routes to the same positions of the built-in puzzles: all pairs of short algs.
fn routes(cx: &mut Cx) {
    let k = cubing::puzzles::cube2x2x2_kpuzzle();
    let names = ["U", "U2", "U'", "R", "R2", "R'", "F", "F2", "F'", "x", "y", "z'"];
    let ms: Vec<(RT, KTransformation)> = match guarded(|| {
        names
            .iter()
            .map(|m| {
                let t = k.transformation_from_move(&m.parse::<Move>().map_err(|e| e.description)?).map_err(|e| e.to_string())?;
                Ok((t_read(&t), t))
            })
            .collect()
    }) {
        Ok(v) => v,
        Err(e) => return cx.violate("routes", "moves".into(), e),
    };
    let o: Vec<ROrbit> = k.orbit_info_iter().map(|x| ROrbit { name: x.name.0.clone(), np: x.num_pieces as usize, no: x.num_orientations as usize }).collect();
    let depth = 2;
    let mut all: Vec<(Vec<usize>, RT, KTransformation, KPattern)> = vec![];
    for n in 0..=depth {
        seqs(ms.len(), n, &mut |s| {
            let mut r = rid(&o);
            let mut t = k.identity_transformation();
            let mut p = k.default_pattern();
            for x in s {
                r = rcomp(&o, &r, &ms[*x].0);
                t = t.apply_transformation(&ms[*x].1);
                p = p.apply_transformation(&ms[*x].1);
            }
            all.push((s.to_vec(), r, t, p));
        });
    }
    for i in 0..all.len() {
        if !cx.mine() {
            continue;
        }
        cx.case("routes", || format!("{:?}", all[i].0), || {
            state_of(&("route", &all[i].1));
            for j in 0..all.len() {
                pair_t(&all[i].2, &all[j].2, all[i].1 == all[j].1).map_err(|e| format!("{} {:?}", e, all[j].0))?;
                pair_p(&all[i].3, &all[j].3, all[i].1 == all[j].1).map_err(|e| format!("{} {:?}", e, all[j].0))?;
            }
            Ok(())
        });
    }
}
fn notation(cx: &mut Cx) {
    let mut ms = vec![];
    let pres = [RPre::No, RPre::L(0), RPre::L(1), RPre::L(2), RPre::L(256), RPre::R(0, 1), RPre::R(1, 2), RPre::R(2, 1), RPre::R(1, 257), RPre::R(u32::MAX, 0)];
    let fams = ["R", "r", "Rw", "R_", "_PLUS_", "R_PLUS_", "R_PLUSPLUS_", "_SLASH_", "U_SQ_"];
    let amts = [0i64, 1, -1, 2, -2, 3, 256, 257, 65537, i32::MAX as i64, -(i32::MAX as i64)];
    for p in &pres {
        for f in fams {
            for a in amts {
                ms.push(RMove { pre: p.clone(), fam: f.to_string(), amt: a });
            }
        }
    }
    let xs: Vec<Move> = ms.iter().map(to_mv).collect();
    let ys: Vec<Move> = ms.iter().map(to_mv).collect();
    for i in 0..ms.len() {
        if !cx.mine() {
            continue;
        }
        cx.case("move pairs", || format!("{:?}", ms[i]), || {
            state_of(&ms[i]);
            for j in 0..ms.len() {
                trace(1);
                let same = ms[i] == ms[j];
                if (xs[i] == ys[j]) != same || (ys[j] == xs[i]) != same || (xs[i] != ys[j]) == same {
                    return Err(format!("move equality with {:?}", ms[j]));
                }
                let sq = ms[i].pre == ms[j].pre && ms[i].fam == ms[j].fam;
                if (xs[i].quantum == ys[j].quantum) != sq || (*xs[i].quantum != *ys[j].quantum) == sq {
                    return Err(format!("family equality with {:?}", ms[j]));
                }
                if same && hash_of(&xs[i]) != hash_of(&ys[j]) || sq && hash_of(&*xs[i].quantum) != hash_of(&*ys[j].quantum) {
                    return Err(format!("hash differs from equal {:?}", ms[j]));
                }
            }
            Ok(())
        });
    }
    // parsed from text against built by hand
    let texts = ["R", "R1", "R2'", "R'", "R1'", "R0", "R0'", "2R", "2-3R", "02R", "R++", "R--", "R_PLUSPLUS_", "R1+", "R1-", "R_PLUS_", "/", "_SLASH_", "U_SQ_", "r", "Rw", "R+"];
    for i in 0..texts.len() {
        for j in 0..texts.len() {
            cx_pair(cx, texts[i], texts[j]);
        }
    }
    let mut algs: Vec<RAlg> = vec![];
    let g = Gen::new(broad(), vec![1, -1, 0, 2], 2);
    for n in 0..=1 {
        g.each(n, &mut |a| algs.push(a.clone()));
    }
    let leaves: Vec<RN> = rparse("R R' 2R R0 .\n//c\n// c").unwrap().into_iter().take(if cx.thorough { 9 } else { 7 }).collect();
    let g = Gen::new(leaves, vec![1, -1, 0, 2], 3);
    for n in 2..=if cx.thorough { 3 } else { 2 } {
        g.each(n, &mut |a| algs.push(a.clone()));
    }
    let xs: Vec<Alg> = algs.iter().map(|a| to_alg(a)).collect();
    let ys: Vec<Alg> = algs.iter().map(|a| to_alg(a)).collect();
    for i in 0..algs.len() {
        if !cx.mine() {
            continue;
        }
        cx.case("alg pairs", || format!("{:?}", algs[i]), || {
            state_of(&algs[i]);
            let c = xs[i].clone();
            for j in 0..algs.len() {
                trace(1);
                let same = algs[i] == algs[j];
                if (xs[i] == ys[j]) != same || (ys[j] == xs[i]) != same || (c != ys[j]) == same {
                    return Err(format!("alg equality with {:?}", algs[j]));
                }
            }
            Ok(())
        });
    }
    // growing a copy of an alg leaves the original
    for i in 0..algs.len() {
        if !cx.mine() {
            continue;
        }
        cx.case("alg copies", || format!("{:?}", algs[i]), || {
            let x = &xs[i];
            let mut c = x.clone();
            c.nodes.push(AlgNode::PauseNode(Pause {}));
            must("original", from_alg(x), algs[i].clone())?;
            ensure(c != *x, || "grown copy equals the original".into())?;
            c.nodes.pop();
            ensure(c == *x, || "copy changed back differs".into())
        });
    }
}
fn cx_pair(cx: &mut Cx, a: &'static str, b: &'static str) {
    if !cx.mine() {
        return;
    }
    cx.case("texts", || format!("{} {}", a, b), || {
        let (ra, rb) = (rparse_move(a), rparse_move(b));
        match (a.parse::<Move>(), b.parse::<Move>()) {
            (Ok(x), Ok(y)) => {
                let same = ra == rb;
                ensure((x == y) == same && (y == x) == same, || "equality".into())?;
                ensure(!same || hash_of(&x) == hash_of(&y), || "hash".into())
            }
            _ => Ok(()),
        }
    });
}
/// One orbit (and one before it) of every size: every single change and, on the smaller ones,
/// every pair of changes, must be seen by equality, in both directions and by a rebuilt value.
fn sizes(cx: &mut Cx) {
    let t = cx.thorough;
    for no in [1usize, 2, 3] {
        for pre in [0usize, 1, 3, 5] {
            for np in 1..=255usize {
                if !t && pre > 0 && np > 70 && (np + pre) % 16 > 2 {
                    continue;
                }
                if !cx.mine() {
                    continue;
                }
                let o = orb(&[(pre, 2), (np, no)]);
                let k = match load(&puz("sizes", &o)) {
                    Ok(k) => k,
                    Err(e) => {
                        cx.violate("layout", format!("{} {} {}", no, pre, np), e);
                        continue;
                    }
                };
                cx.case("every size", || format!("{} {} {}", pre, np, no), || size(&k, &o));
                if pre + np <= if t { 40 } else { 20 } {
                    cx.case("every size, two changes", || format!("{} {} {}", pre, np, no), || size2(&k, &o));
                }
            }
        }
    }
}
/// All (orbit, place) of a layout.
fn places(o: &[ROrbit]) -> Vec<(usize, usize)> {
    (0..o.len()).flat_map(|q| (0..o[q].np).map(move |i| (q, i))).collect()
}
fn size(k: &KPuzzle, o: &[ROrbit]) -> Result<(), String> {
    let (p, t) = (k.default_pattern(), k.identity_transformation());
    let (p2, t2) = (p_make(k, o, &rsolved(o))?, t_make(k, o, &rid(o))?);
    pair_p(&p, &p2, true)?;
    pair_t(&t, &t2, true)?;
    let at = |m: String, q: usize, i: usize| format!("{} (orbit {} place {})", m, q, i);
    for (q, i) in places(o) {
        let ob = &k.data.ordered_orbit_info[q];
        state_of(&(o.len(), o[q].np, o[q].no, q, i));
        let piece = i as u8;
        for v in [piece ^ 1, piece ^ 128, piece.wrapping_add(1), !piece] {
            let mut c = p.clone();
            c.set_piece(ob, i as u8, v);
            trans(2);
            pair_p(&c, &p, false).map_err(|e| at(e, q, i))?;
            c.set_piece(ob, i as u8, piece);
            pair_p(&c, &p2, true).map_err(|e| at(e, q, i))?;
        }
        for (x, m) in all_om(o[q].no) {
            let mut c = p.clone();
            c.set_orientation_with_mod(ob, i as u8, &OrientationWithMod { orientation: x as u8, orientation_mod: m as u8 });
            trans(1);
            pair_p(&c, &p, x == 0 && m == 0).map_err(|e| at(e, q, i))?;
        }
        for v in [(i + 1) % o[q].np, (i + o[q].np / 2) % o[q].np, 0] {
            let mut c = t.clone();
            c.set_permutation_idx(ob, i as u8, v as u8);
            trans(1);
            pair_t(&c, &t, v == i).map_err(|e| at(e, q, i))?;
        }
        for d in 1..o[q].no {
            let mut c = t.clone();
            c.set_orientation_delta(ob, i as u8, d as u8);
            trans(1);
            pair_t(&c, &t, false).map_err(|e| at(e, q, i))?;
        }
    }
    Ok(())
}
/// Pairs of changes: exchanged pieces, opposite twists, the same change at another place.
fn size2(k: &KPuzzle, o: &[ROrbit]) -> Result<(), String> {
    let (p, t) = (k.default_pattern(), k.identity_transformation());
    let ps = places(o);
    for &(q, i) in &ps {
        let oi = &k.data.ordered_orbit_info[q];
        for &(r, j) in &ps {
            if (q, i) == (r, j) {
                continue;
            }
            let oj = &k.data.ordered_orbit_info[r];
            let mut a = p.clone();
            a.set_piece(oi, i as u8, p.get_piece(oj, j as u8));
            let mut b = a.clone();
            b.set_piece(oj, j as u8, p.get_piece(oi, i as u8));
            let differ = p.get_piece(oi, i as u8) != p.get_piece(oj, j as u8);
            pair_p(&a, &p, !differ)?;
            pair_p(&b, &p, !differ)?;
            pair_p(&a, &b, !differ)?;
            // the same change at the two places
            let mut c = p.clone();
            c.set_piece(oi, i as u8, 200);
            let mut d = p.clone();
            d.set_piece(oj, j as u8, 200);
            pair_p(&c, &d, false)?;
            if o[q].no > 1 && o[r].no > 1 {
                let om = |x: usize| OrientationWithMod { orientation: x as u8, orientation_mod: 0 };
                let mut c = p.clone();
                c.set_orientation_with_mod(oi, i as u8, &om(1));
                let mut d = p.clone();
                d.set_orientation_with_mod(oj, j as u8, &om(1));
                pair_p(&c, &d, false)?;
                c.set_orientation_with_mod(oj, j as u8, &om(o[r].no - 1));
                pair_p(&c, &d, false)?;
                pair_p(&c, &p, false)?;
            }
            let mut c = t.clone();
            if q == r {
                c.set_permutation_idx(oi, i as u8, j as u8);
                c.set_permutation_idx(oi, j as u8, i as u8);
                pair_t(&c, &t, false)?;
            }
            if o[q].no > 1 && o[r].no > 1 {
                let mut c = t.clone();
                c.set_orientation_delta(oi, i as u8, 1);
                let mut d = t.clone();
                d.set_orientation_delta(oj, j as u8, 1);
                pair_t(&c, &d, false)?;
                c.set_orientation_delta(oj, j as u8, (o[r].no - 1) as u8);
                pair_t(&c, &t, false)?;
                pair_t(&c, &d, false)?;
            }
            trans(8);
        }
    }
    Ok(())
}
/// Comments are equal exactly when their texts are.
fn comments(cx: &mut Cx) {
    let mut v = vec![];
    for n in 0..=3 {
        strings(&["c", "C", " ", "\t", "/", "\u{e9}", "\r"], n, &mut |s| v.push(s.to_string()));
    }
    let one = |s: &String| vec![RN::C(s.clone())];
    let two = |s: &String| vec![RN::G(vec![RN::M(mv("R", 1)), RN::C(s.clone())], -1), RN::P];
    let xs: Vec<[Alg; 2]> = v.iter().map(|s| [to_alg(&one(s)), to_alg(&two(s))]).collect();
    for i in 0..v.len() {
        if !cx.mine() {
            continue;
        }
        cx.case("comment pairs", || format!("{:?}", v[i]), || {
            state_of(&v[i]);
            let mine = [to_alg(&one(&v[i])), to_alg(&two(&v[i]))];
            for j in 0..v.len() {
                trace(2);
                for f in 0..2 {
                    let same = i == j;
                    if (mine[f] == xs[j][f]) != same || (xs[j][f] != mine[f]) == same {
                        return Err(format!("comment equality with {:?}", v[j]));
                    }
                }
            }
            Ok(())
        });
    }
}
/// Values of every size: a copy is equal, a copy with one entry changed is not.
fn wides(cx: &mut Cx) {
    use crate::zoo::*;
    for n in wide_sizes(if cx.thorough { 1 << 18 } else { 1 << 17 }) {
        if !cx.mine() {
            continue;
        }
        cx.case("wide", || n.to_string(), || {
            let (k, o) = super::c07::blank(&wide(n))?;
            let (rp, rt) = (wide_p(&o), wide_t(&o, 1));
            let (p, t) = (p_make(&k, &o, &rp)?, t_make(&k, &o, &rt)?);
            // memory that has been used for something else
            drop((p_make(&k, &o, &rsolved(&o))?, t_make(&k, &o, &rid(&o))?));
            drop(vec![0xa5u8; n]);
            let (p2, t2) = (p.clone(), t.clone());
            pair_p(&p, &p2, true)?;
            pair_t(&t, &t2, true)?;
            must("copy", p_read(&p2), p_canon(&o, &rp))?;
            must("copy", t_read(&t2), rt)?;
            let mut at: Vec<(usize, usize)> = vec![];
            for q in [0, o.len() / 2, o.len().saturating_sub(2), o.len() - 1] {
                let m = o[q].np;
                at.extend((0..m).filter(|i| *i < 9 || *i + 9 >= m || *i == m / 2).map(|i| (q, i)));
            }
            for (q, i) in at {
                let ob = &k.data.ordered_orbit_info[q];
                let i = i as u8;
                trans(1);
                state_of(&(n, q, i));
                let mut c = p.clone();
                c.set_piece(ob, i, p.get_piece(ob, i) ^ 1);
                pair_p(&c, &p, false)?;
                let mut d = c.clone();
                pair_p(&c, &d, true)?;
                d.set_piece(ob, i, p.get_piece(ob, i));
                pair_p(&d, &p, true)?;
                pair_p(&d, &c, false)?;
                let mut c = t.clone();
                c.set_permutation_idx(ob, i, (t.get_permutation_idx(ob, i) + 1) % ob.num_pieces);
                pair_t(&c, &t, ob.num_pieces == 1)?;
                if ob.num_orientations > 1 {
                    let mut c = t.clone();
                    c.set_orientation_delta(ob, i, (t.get_orientation_delta(ob, i) + 1) % ob.num_orientations);
                    pair_t(&c, &t, false)?;
                    c.set_orientation_delta(ob, i, t.get_orientation_delta(ob, i));
                    pair_t(&c, &t, true)?;
                }
            }
            Ok(())
        });
    }
}
/// Nodes that share their parts, and equal ones that do not: the same answers.
fn shared(cx: &mut Cx) {
    use std::sync::Arc;
    let texts = ["", "R", "R'", "U", "R U", "(R)2", ". ", "[R, U]"];
    let pool: Vec<Arc<Alg>> = texts.iter().filter_map(|t| t.parse::<Alg>().ok()).map(Arc::new).collect();
    let fams: Vec<Arc<QuantumMove>> = ["R", "U", "2R", "2-3r", "R_PLUS_"].iter().filter_map(|t| t.parse::<QuantumMove>().ok()).map(Arc::new).collect();
    if pool.len() != texts.len() || fams.len() != 5 {
        return cx.violate("shared", "setup".into(), "notation refused".into());
    }
    // (kind, first part, second part or amount)
    let mut all: Vec<(usize, usize, i64)> = vec![];
    for a in 0..pool.len() {
        for n in [1, -1, 0, 2, -2, 3, 256, 257, 65537] {
            all.push((0, a, n));
        }
        for b in 0..pool.len() as i64 {
            all.push((1, a, b));
            all.push((2, a, b));
        }
    }
    for f in 0..fams.len() {
        for n in [1, -1, 0, 2, -2, 3, 256, 257, 65537] {
            all.push((3, f, n));
        }
    }
    let build = |(k, a, b): (usize, usize, i64), share: bool| -> AlgNode {
        let alg = |i: usize| if share { pool[i].clone() } else { Arc::new(to_alg(&from_alg(&pool[i]))) };
        match k {
            0 => Grouping { alg: alg(a), amount: b as i32 }.into(),
            1 => Commutator { a: alg(a), b: alg(b as usize) }.into(),
            2 => Conjugate { a: alg(a), b: alg(b as usize) }.into(),
            _ => Move { quantum: if share { fams[a].clone() } else { Arc::new((*fams[a]).clone()) }, amount: b as i32 }.into(),
        }
    };
    for i in 0..all.len() {
        if !cx.mine() {
            continue;
        }
        cx.case("shared parts", || format!("{:?}", all[i]), || {
            state_of(&("shared", all[i]));
            let wrap = |n: &AlgNode| Alg { nodes: vec![n.clone()] };
            for (s1, s2) in [(true, true), (true, false), (false, false)] {
                let x = build(all[i], s1);
                for j in 0..all.len() {
                    let y = build(all[j], s2);
                    trace(1);
                    let same = all[i] == all[j];
                    let got = [x == y, y == x, !(x != y), wrap(&x) == wrap(&y)];
                    ensure(got == [same; 4], || format!("equality {:?} with {:?}, shared {} {}", got, all[j], s1, s2))?;
                    match (&x, &y) {
                        (AlgNode::GroupingNode(a), AlgNode::GroupingNode(b)) => must("groupings", a == b && !(a != b), same)?,
                        (AlgNode::CommutatorNode(a), AlgNode::CommutatorNode(b)) => must("commutators", a == b && !(a != b), same)?,
                        (AlgNode::ConjugateNode(a), AlgNode::ConjugateNode(b)) => must("conjugates", a == b && !(a != b), same)?,
                        (AlgNode::MoveNode(a), AlgNode::MoveNode(b)) => {
                            must("moves", a == b && !(a != b), same)?;
                            ensure(!same || hash_of(a) == hash_of(b), || "equal moves hash differently".into())?
                        }
                        _ => {}
                    }
                }
                // the inverse, its inverse and a copy, which may share parts with it
                let a = wrap(&x);
                let want = from_alg(&a);
                let inv = a.invert();
                let same = from_alg(&inv) == want;
                ensure((inv == a) == same && (a != inv) != same, || format!("equality with the inverse is {}", inv == a))?;
                let c = a.clone();
                ensure(c == a && !(c != a), || "a copy is not equal".into())?;
                let mut c = a.clone();
                match &mut c.nodes[0] {
                    AlgNode::GroupingNode(g) => g.amount ^= 1,
                    AlgNode::MoveNode(m) => m.amount ^= 1,
                    AlgNode::CommutatorNode(m) => std::mem::swap(&mut m.a, &mut m.b),
                    AlgNode::ConjugateNode(m) => std::mem::swap(&mut m.a, &mut m.b),
                    _ => {}
                }
                let same = from_alg(&c) == want;
                ensure((c == a) == same && (a != c) != same, || format!("equality with a changed copy is {}", c == a))?;
                must("original", from_alg(&a), want)?;
            }
            Ok(())
        });
    }
}
fn explore(cx: &mut Cx) {
    shared(cx);
    sizes(cx);
    wides(cx);
    comments(cx);
    for (name, o, pv) in layouts() {
        patterns(cx, name, &o, pv);
        transformations(cx, name, &o);
    }
    histories(cx);
    builtin(cx);
    routes(cx);
    notation(cx);
}
fn replay(_kind: &str, _case: &str) -> Result<(), String> {
    Ok(())
}
