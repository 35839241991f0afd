//! C09: orientation arithmetic over its complete finite domain.
use super::c07::blank;
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use cubing::kpuzzle::*;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        level: "model_checking",
        rule: "The complete domain: every orientation count 1..107, every modulus (divisors, 0), every orientation, every twist and every pair of twists; and every out-of-range (orientation, modulus) pair in 0..255 for setters and imports. states = distinct (count, modulus, orientation), transitions = twists applied.",
        assumptions: &[],
        explore,
        replay,
        hang_s: 30,
        nshards: 8,
    }
}
fn red(no: usize, m: usize) -> usize {
    if m == no {
        0
    } else {
        m
    }
}
fn read(p: &KPattern, oi: &KPuzzleOrbitInfo, i: u8) -> (usize, usize) {
    let w = p.get_orientation_with_mod(oi, i);
    (w.orientation as usize, red(oi.num_orientations as usize, w.orientation_mod as usize))
}
fn valid(no: usize, x: usize, m: usize) -> bool {
    if m == 0 {
        x < no
    } else {
        no % m == 0 && x < m
    }
}
fn explore(cx: &mut Cx) {
    let t = cx.thorough;
    for no in 1..=107usize {
        let l = [(3, no), (1, 6)];
        let (k, o) = match blank(&l) {
            Ok(x) => x,
            Err(e) => return cx.violate("setup", format!("{:?}", l), e),
        };
        let oi = k.orbit_info_iter().next().unwrap();
        let oi2 = k.orbit_info_iter().nth(1).unwrap();
        // twists applied to the middle piece only
        let tw: Result<Vec<KTransformation>, String> = (0..no)
            .map(|d| t_make(&k, &o, &vec![(vec![0, 1, 2], vec![0, d, 0]), (vec![0], vec![0])]))
            .collect();
        let tw = match tw {
            Ok(x) => x,
            Err(e) => return cx.violate("setup", format!("{:?}", l), e),
        };
        let base = k.default_pattern();
        for m in std::iter::once(0).chain(divisors(no)) {
            let f = if m == 0 { no } else { m };
            for x in 0..f {
                if !cx.mine() {
                    continue;
                }
                state_of(&(no, red(no, m), x));
                cx.case("arith", || format!("{} {} {}", no, m, x), || {
                    let mut p = base.clone();
                    // neighbours with distinct settings
                    p.set_orientation_with_mod(oi, 0, &OrientationWithMod { orientation: (no - 1) as u8, orientation_mod: 0 });
                    p.set_orientation_with_mod(oi, 2, &OrientationWithMod { orientation: 0, orientation_mod: 1 });
                    p.set_orientation_with_mod(oi2, 0, &OrientationWithMod { orientation: 2, orientation_mod: 3 });
                    p.set_orientation_with_mod(oi, 1, &OrientationWithMod { orientation: x as u8, orientation_mod: m as u8 });
                    let want = |q: &KPattern, x: usize| -> Result<(), String> {
                        must("twisted piece", read(q, oi, 1), (x, red(no, m)))?;
                        must("neighbour 0", read(q, oi, 0), (no - 1, 0))?;
                        must("neighbour 2", read(q, oi, 2), (0, red(no, 1)))?;
                        must("other orbit", read(q, oi2, 0), (2, 3))?;
                        must("pieces", (0..3).map(|i| q.get_piece(oi, i)).collect::<Vec<_>>(), vec![0, 1, 2])
                    };
                    want(&p, x)?;
                    let mut via = rsolved(&o);
                    via[0].1[1] = x;
                    via[0].2[1] = m;
                    let imported = p_make(&k, &o, &via)?;
                    must("imported", read(&imported, oi, 1), (x, red(no, m)))?;
                    for d in 0..no {
                        trans(1);
                        trace(1);
                        let q = p.apply_transformation(&tw[d]);
                        want(&q, (x + d) % f)?;
                        let step = if t || no <= 30 { 1 } else { 1 + (no / 12) };
                        for e in (0..no).step_by(step).chain([no - 1]) {
                            trans(1);
                            let r = q.apply_transformation(&tw[e]);
                            must("twisted twice", read(&r, oi, 1), ((x + d + e) % f, red(no, m)))?;
                            let s = p.apply_transformation(&tw[(d + e) % no]);
                            if r != s {
                                return Err(format!("twist by {} then {} differs from {}", d, e, (d + e) % no));
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
        // overwriting every setting by every other
        let mut oms = all_om(no);
        oms.push((no - 1, no));
        for &(x, m) in &oms {
            if !cx.mine() {
                continue;
            }
            cx.case("overwrite", || format!("{} {} {}", no, m, x), || {
                let mut p = base.clone();
                for &(y, n) in &oms {
                    p.set_orientation_with_mod(oi, 1, &OrientationWithMod { orientation: x as u8, orientation_mod: m as u8 });
                    p.set_orientation_with_mod(oi, 1, &OrientationWithMod { orientation: y as u8, orientation_mod: n as u8 });
                    must("overwritten", read(&p, oi, 1), (y, red(no, n)))?;
                    must("neighbours", (read(&p, oi, 0), read(&p, oi, 2)), ((0, 0), (0, 0)))?;
                }
                Ok(())
            });
        }
        // everything outside the range is refused, everything inside accepted
        for m in 0..=255usize {
            if !cx.mine() {
                continue;
            }
            for x in 0..=255usize {
                if m > no + 2 && x > 2 && m != 2 * no && !t {
                    continue; // quick: a modulus above the count never divides it
                }
                cx.case("range", || format!("{} {} {}", no, m, x), || {
                    let ok = valid(no, x, m);
                    let mut p = base.clone();
                    let r = panics(|| p.set_orientation_with_mod(oi, 1, &OrientationWithMod { orientation: x as u8, orientation_mod: m as u8 }));
                    ensure(r.is_ok() == ok, || format!("setting {} mod {} of {}: {:?}", x, m, no, r))?;
                    ensure(ok || p == base, || "a refused setting changed the pattern".into())?;
                    let mut via = rsolved(&o);
                    via[0].1[1] = x;
                    via[0].2[1] = m;
                    let r = p_make(&k, &o, &via);
                    ensure(r.is_ok() == ok, || format!("importing {} mod {} of {}: {:?}", x, m, no, r.is_ok()))
                });
            }
        }
        for d in 0..=255usize {
            if !cx.mine() {
                continue;
            }
            cx.case("delta range", || format!("{} {}", no, d), || {
                let mut x = k.identity_transformation();
                let r = panics(|| x.set_orientation_delta(oi, 1, d as u8));
                ensure(r.is_ok() == (d < no), || format!("setting a twist of {} of {}: {:?}", d, no, r))?;
                if d < no {
                    must("twist", x.get_orientation_delta(oi, 1) as usize, d)?;
                }
                let r = t_make(&k, &o, &vec![(vec![0, 1, 2], vec![0, d, 0]), (vec![0], vec![0])]);
                ensure(r.is_ok() == (d < no), || format!("importing a twist of {} of {}", d, no))?;
                if d < no {
                    let mut p = k.default_pattern();
                    p.set_orientation_with_mod(oi, 1, &OrientationWithMod::new_using_default_orientation_mod(d as u8));
                    must("default modulus", read(&p, oi, 1), (d, 0))?;
                }
                Ok(())
            });
        }
    }
    for no in [0usize, 108, 109, 127, 128, 200, 254, 255] {
        if cx.mine() {
            cx.case("count", || no.to_string(), || ensure(blank(&[(1, no)]).is_err(), || format!("{} orientations accepted", no)));
        }
    }
    cx.sample("n=72: modulus 24, orientation 23, twist 5 then 71".into());
}
fn replay(_: &str, _: &str) -> Result<(), String> {
    Ok(())
}
