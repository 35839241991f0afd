//! C28: direct (unchecked, raw) access and checked access to the same value agree.
use cubing::kpuzzle::*;
use mc::bind::*;
use mc::engine::*;
use mc::gen::*;
use mc::p::c07::blank;
use mc::refm::*;

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        level: "model_checking",
        rule: "On small layouts every sequence of writes up to a length, each write through the checked setters, the unchecked setters, raw values or raw values copied from elsewhere, with every valid value at every place, the value and copies of it read in every way after each write; every place of every piece count, and every orientation setting of every orientation count, written and read in every way; packing and turning of all settings. states = distinct contents reached, transitions = writes, traces = complete read-outs compared with the model.",
        assumptions: &["valid places and values only (the unchecked functions promise nothing else)", "the meaning of a raw orientation of a pattern is not judged, only that equal settings have equal raw values and that copying one copies the setting"],
        explore,
        replay,
        hang_s: 30,
        nshards: 8,
    }
}
/// One write: place, entry, way.
type W = (usize, usize, (u8, usize, usize), usize);
const WAYS: usize = 4;
fn om(x: usize, m: usize) -> OrientationWithMod {
    OrientationWithMod { orientation: x as u8, orientation_mod: m as u8 }
}
fn write_p(k: &KPuzzle, p: &mut KPattern, donor: &KPattern, (q, i, (pc, x, m), way): W) {
    let o = &k.data.ordered_orbit_info[q];
    let i = i as u8;
    trans(1);
    match way {
        0 => {
            p.set_piece(o, i, pc);
            p.set_orientation_with_mod(o, i, &om(x, m));
        }
        1 => unsafe {
            p.set_piece_unchecked(o, i, pc);
            p.set_orientation_with_mod_unchecked(o, i, &om(x, m));
        },
        2 => unsafe {
            p.set_orientation_with_mod_unchecked(o, i, &om(x, m));
            p.packed_orbit_data_mut().set_raw_piece_or_permutation_value(o, i, pc);
        },
        _ => unsafe {
            // the setting is copied from the donor's first place of the orbit
            let raw = donor.packed_orbit_data().get_raw_orientation_value(o, 0);
            let d = p.packed_orbit_data_mut();
            d.set_raw_piece_or_permutation_value(o, i, pc);
            d.set_raw_orientation_value(o, i, raw);
        },
    }
}
fn write_t(k: &KPuzzle, t: &mut KTransformation, q: usize, i: usize, (pc, d): (u8, u8), way: usize) {
    let o = &k.data.ordered_orbit_info[q];
    let i = i as u8;
    trans(1);
    match way {
        0 => {
            t.set_permutation_idx(o, i, pc);
            t.set_orientation_delta(o, i, d);
        }
        1 => unsafe {
            t.set_permutation_idx_unchecked(o, i, pc);
            t.set_orientation_delta_unchecked(o, i, d);
        },
        2 => unsafe {
            let x = t.packed_orbit_data_mut();
            x.set_raw_orientation_value(o, i, d);
            x.set_raw_piece_or_permutation_value(o, i, pc);
        },
        _ => unsafe {
            t.packed_orbit_data_mut().set_raw_piece_or_permutation_value(o, i, pc);
            t.set_orientation_delta(o, i, d);
        },
    }
}
/// Read in every way.
fn see_p(k: &KPuzzle, p: &KPattern, want: &RP) -> Result<(), String> {
    trace(1);
    must("checked", p_read(p), want.clone())?;
    must("exported", p_canon_data(k, p), want.clone())?;
    for (q, o) in k.orbit_info_iter().enumerate() {
        for i in 0..o.num_pieces {
            let at = i as usize;
            unsafe {
                let w = p.get_orientation_with_mod_unchecked(o, i);
                ensure(w == p.get_orientation_with_mod(o, i), || format!("unchecked orientation at {} {}", q, i))?;
                let d = p.packed_orbit_data();
                must("raw piece", d.get_raw_piece_or_permutation_value(o, i), want[q].0[at])?;
                let r = d.get_raw_orientation_value(o, i);
                for j in 0..i {
                    let same = (want[q].1[at], want[q].2[at]) == (want[q].1[j as usize], want[q].2[j as usize]);
                    must("raw orientations equal", d.get_raw_orientation_value(o, j) == r, same)?;
                }
            }
        }
    }
    unsafe {
        let d = p.packed_orbit_data();
        must("bytes", d.byte_slice(), p.byte_slice())?;
        must("puzzle", d.kpuzzle().orbit_info_iter().count(), k.orbit_info_iter().count())
    }
}
fn p_canon_data(k: &KPuzzle, p: &KPattern) -> RP {
    let d = p.to_data();
    k.orbit_info_iter()
        .map(|o| match d.get(&o.name) {
            None => (vec![], vec![], vec![]),
            Some(d) => {
                let n = d.orientation.len();
                let m = d.orientation_mod.clone().unwrap_or(vec![0; n]);
                (d.pieces.clone(), d.orientation.iter().map(|x| *x as usize).collect(), m.iter().map(|x| if *x == o.num_orientations { 0 } else { *x as usize }).collect())
            }
        })
        .collect()
}
fn see_t(k: &KPuzzle, t: &KTransformation, want: &RT) -> Result<(), String> {
    trace(1);
    must("checked", t_read(t), want.clone())?;
    for (q, o) in k.orbit_info_iter().enumerate() {
        for i in 0..o.num_pieces {
            let (p, d) = (want[q].0[i as usize] as u8, want[q].1[i as usize] as u8);
            unsafe {
                must("unchecked", (t.get_permutation_idx_unchecked(o, i), t.get_orientation_delta_unchecked(o, i)), (p, d))?;
                let x = t.packed_orbit_data();
                must("raw", (x.get_raw_piece_or_permutation_value(o, i), x.get_raw_orientation_value(o, i)), (p, d))?;
            }
        }
    }
    unsafe { must("bytes", t.packed_orbit_data().byte_slice(), t.byte_slice()) }
}
fn fill(k: &KPuzzle) -> KPattern {
    // one value for every orbit, without looking at the default pattern
    k.default_pattern()
}
/// A history of writes on a pattern, with a copy kept from before each write.
fn hist_p(l: &[(usize, usize)], ws: &[W]) -> Result<(), String> {
    let (k, o) = blank(l)?;
    let mut p = fill(&k);
    let mut want = p_read(&p);
    for w in ws {
        let before = p.clone();
        let was = want.clone();
        let mut donor = k.default_pattern();
        let oi = &k.data.ordered_orbit_info[w.0];
        donor.set_orientation_with_mod(oi, 0, &om(w.2 .1, w.2 .2));
        write_p(&k, &mut p, &donor, *w);
        want[w.0].0[w.1] = w.2 .0;
        want[w.0].1[w.1] = w.2 .1;
        want[w.0].2[w.1] = w.2 .2;
        let want = p_canon(&o, &want);
        state_of(&want);
        see_p(&k, &p, &want)?;
        see_p(&k, &before, &p_canon(&o, &was))?;
        let same = want == p_canon(&o, &was);
        must("equality", p == before, same)?;
        must("equality of bytes", unsafe { p.byte_slice() == before.byte_slice() }, same)?;
        must("number of bytes", unsafe { p.byte_slice().len() }, unsafe { before.byte_slice().len() })?;
        // written at once from data
        let built = p_make(&k, &o, &want)?;
        must("built", built == p && hash_of(&built) == hash_of(&p) && unsafe { built.byte_slice() == p.byte_slice() && built.packed_orbit_data() == p.packed_orbit_data() }, true)?;
        // and usable
        must("used", p_read(&p.apply_transformation(&k.identity_transformation())), want)?;
    }
    Ok(())
}
type WT = (usize, usize, (u8, u8), usize);
fn hist_t(l: &[(usize, usize)], ws: &[WT]) -> Result<(), String> {
    let (k, o) = blank(l)?;
    let mut t = k.identity_transformation();
    let mut want = rid(&o);
    for &(q, i, (p, d), way) in ws {
        let before = t.clone();
        let was = want.clone();
        write_t(&k, &mut t, q, i, (p, d), way);
        want[q].0[i] = p as usize;
        want[q].1[i] = d as usize;
        state_of(&want);
        see_t(&k, &t, &want)?;
        see_t(&k, &before, &was)?;
        must("equality", t == before, want == was)?;
        must("equality of bytes", unsafe { t.byte_slice() == before.byte_slice() }, want == was)?;
        if want.iter().all(|x| { let mut p = x.0.clone(); p.sort(); p.iter().enumerate().all(|(i, x)| i == *x) }) {
            let built = t_make(&k, &o, &want)?;
            must("built", built == t, true)?;
            must("inverse", t_read(&t.invert()), rtinv(&o, &want))?;
            must("twice", t_read(&t.apply_transformation(&t)), rcomp(&o, &want, &want))?;
        }
    }
    Ok(())
}
/// Every place of a layout written in every way, once each.
fn places(l: &[(usize, usize)]) -> Result<(), String> {
    let (k, o) = blank(l)?;
    let base = fill(&k);
    let wb = p_read(&base);
    let id = k.identity_transformation();
    let wt = rid(&o);
    for way in 0..WAYS {
        let (mut p, mut w) = (base.clone(), wb.clone());
        let (mut t, mut v) = (id.clone(), wt.clone());
        for (q, ob) in o.iter().enumerate() {
            for i in 0..ob.np {
                let all = all_om(ob.no);
                let (x, m) = all[(i * 7 + q + way) % all.len()];
                let e = (255 - ((i * 3 + way) % 256) as u8, x, m);
                let mut donor = base.clone();
                donor.set_orientation_with_mod(&k.data.ordered_orbit_info[q], 0, &om(x, m));
                write_p(&k, &mut p, &donor, (q, i, e, way));
                w[q].0[i] = e.0;
                w[q].1[i] = x;
                w[q].2[i] = m;
                let e = (((i + 1 + way) % ob.np) as u8, ((i * 5 + way) % ob.no) as u8);
                write_t(&k, &mut t, q, i, e, way);
                v[q].0[i] = e.0 as usize;
                v[q].1[i] = e.1 as usize;
                if ob.np < 20 || i % 16 == 0 {
                    must("pattern so far", p_read(&p), w.clone())?;
                    must("transformation so far", t_read(&t), v.clone())?;
                }
            }
        }
        state_of(&(l, way));
        see_p(&k, &p, &w)?;
        see_t(&k, &t, &v)?;
        must("pattern used", p_read(&p.apply_transformation(&t)), p_canon(&o, &rapply(&o, &w, &v)))?;
        see_p(&k, &base, &wb)?;
        see_t(&k, &id, &wt)?;
    }
    Ok(())
}
/// Packing and turning of every setting of an orientation count.
fn packing(no: usize) -> Result<(), String> {
    let (k, _) = blank(&[(1, no)])?;
    let oi = k.orbit_info_iter().next().ok_or("no orbit")?;
    let pk = &oi.orientation_packer;
    let red = |w: &OrientationWithMod| (w.orientation as usize, if w.orientation_mod as usize == no { 0 } else { w.orientation_mod as usize });
    let all = all_om(no);
    let packed: Vec<u8> = all.iter().map(|&(x, m)| pk.pack(&om(x, m))).collect();
    for (a, &(x, m)) in all.iter().enumerate() {
        state_of(&(no, x, m));
        trans(1);
        must("unpacked", red(pk.unpack(&packed[a])), (x, m))?;
        for (b, &(y, n)) in all.iter().enumerate() {
            must("packed equal", packed[a] == packed[b], (x, m) == (y, n))?;
        }
        let f = if m == 0 { no } else { m };
        for d in 0..no {
            trace(1);
            must("turned", red(pk.unpack(&pk.transform(packed[a], d as u8))), ((x + d) % f, m))?;
            must("turned, packed", pk.transform(packed[a], d as u8), pk.pack(&om((x + d) % f, m)))?;
        }
    }
    for x in 0..no {
        must("full modulus", pk.pack(&om(x, no)) == pk.pack(&om(x, 0)), true)?;
    }
    Ok(())
}
/// Values of any size: single writes at and near the ends and in the middle of several orbits.
fn wide_case(n: usize) -> Result<(), String> {
    use mc::zoo::*;
    let (k, o) = blank(&wide(n))?;
    let (rp, rt) = (p_canon(&o, &wide_p(&o)), wide_t(&o, 1));
    let (p, t) = (p_make(&k, &o, &rp)?, t_make(&k, &o, &rt)?);
    let (mut all_p, mut all_t) = (p.clone(), t.clone());
    let (mut want_p, mut want_t) = (rp.clone(), rt.clone());
    for q in [0, o.len() / 3, o.len() / 2, o.len().saturating_sub(2), o.len() - 1] {
        let oi = &k.data.ordered_orbit_info[q];
        let (np, no) = (o[q].np, o[q].no);
        let set = all_om(no);
        for i in (0..np).filter(|i| *i < 3 || *i + 3 >= np || *i == np / 2) {
            for way in 0..WAYS {
                state_of(&(n, q, i, way));
                trace(2);
                let (x, m) = set[(i + way + 1) % set.len()];
                for (pc, x, m) in [(rp[q].0[i] ^ 1, rp[q].1[i], rp[q].2[i]), (rp[q].0[i], x, m)] {
                    let mut donor = p.clone();
                    donor.set_orientation_with_mod(oi, 0, &om(x, m));
                    let mut c = p.clone();
                    write_p(&k, &mut c, &donor, (q, i, (pc, x, m), way));
                    let same = (pc, x, m) == (rp[q].0[i], rp[q].1[i], rp[q].2[i]);
                    let eq = |c: &KPattern, p: &KPattern| unsafe { [c == p, c.byte_slice() == p.byte_slice(), c.packed_orbit_data() == p.packed_orbit_data(), c.packed_orbit_data().byte_slice() == p.packed_orbit_data().byte_slice()] };
                    must("changed and unchanged equal", eq(&c, &p), [same; 4])?;
                    must("piece", (c.get_piece(oi, i as u8), unsafe { c.packed_orbit_data().get_raw_piece_or_permutation_value(oi, i as u8) }), (pc, pc))?;
                    must("orientation", c.get_orientation_with_mod(oi, i as u8) == unsafe { c.get_orientation_with_mod_unchecked(oi, i as u8) }, true)?;
                    let mut donor = p.clone();
                    donor.set_orientation_with_mod(oi, 0, &om(rp[q].1[i], rp[q].2[i]));
                    write_p(&k, &mut c, &donor, (q, i, (rp[q].0[i], rp[q].1[i], rp[q].2[i]), (way + 1) % WAYS));
                    must("changed back equal", eq(&c, &p), [true; 4])?;
                    write_p(&k, &mut all_p, &{ let mut d = p.clone(); d.set_orientation_with_mod(oi, 0, &om(x, m)); d }, (q, i, (pc, x, m), way));
                    want_p[q].0[i] = pc;
                    want_p[q].1[i] = x;
                    want_p[q].2[i] = m;
                }
                let (a, b) = (rt[q].0[i], rt[q].1[i]);
                for (e, d) in [((a + 1) % np, b), (a, (b + 1) % no)] {
                    let mut c = t.clone();
                    write_t(&k, &mut c, q, i, (e as u8, d as u8), way);
                    let same = (e, d) == (a, b);
                    let eq = |c: &KTransformation| unsafe { [*c == t, c.byte_slice() == t.byte_slice(), c.packed_orbit_data() == t.packed_orbit_data()] };
                    must("changed and unchanged equal", eq(&c), [same; 3])?;
                    must("entry", unsafe { (c.get_permutation_idx_unchecked(oi, i as u8) as usize, c.get_orientation_delta(oi, i as u8) as usize) }, (e, d))?;
                    write_t(&k, &mut c, q, i, (a as u8, b as u8), (way + 1) % WAYS);
                    must("changed back equal", eq(&c), [true; 3])?;
                    write_t(&k, &mut all_t, q, i, (e as u8, d as u8), way);
                    want_t[q].0[i] = e;
                    want_t[q].1[i] = d;
                }
            }
        }
    }
    must("all written", p_read(&all_p), p_canon(&o, &want_p))?;
    must("all written", t_read(&all_t), want_t)?;
    must("original", p_read(&p), rp)?;
    must("original", t_read(&t), rt)
}
fn explore(cx: &mut Cx) {
    let t = cx.thorough;
    let shapes: Vec<(&str, Vec<(usize, usize)>, usize)> = vec![
        ("1x1", vec![(1, 1)], if t { 6 } else { 5 }),
        ("1x6", vec![(1, 6)], if t { 3 } else { 2 }),
        ("2x2", vec![(2, 2)], 3),
        ("3x2", vec![(3, 2)], if t { 3 } else { 2 }),
        ("2x4", vec![(2, 4)], if t { 3 } else { 2 }),
        ("1x3+2x2", vec![(1, 3), (2, 2)], if t { 3 } else { 2 }),
        ("0x5+2x2+1x1", vec![(0, 5), (2, 2), (1, 1)], 2),
        ("2x3+2x3", vec![(2, 3), (2, 3)], 2),
    ];
    for (name, l, depth) in &shapes {
        let o = orb(l);
        let mut ws: Vec<W> = vec![];
        let mut wt: Vec<WT> = vec![];
        for (q, ob) in o.iter().enumerate() {
            for i in 0..ob.np {
                for way in 0..WAYS {
                    for &(x, m) in &all_om(ob.no) {
                        for p in [0u8, 1, 255] {
                            ws.push((q, i, (p, x, m), way));
                        }
                    }
                    for p in 0..ob.np {
                        for d in 0..ob.no {
                            wt.push((q, i, (p as u8, d as u8), way));
                        }
                    }
                }
            }
        }
        let cap = if t { 6_000_000 } else { 400_000 };
        for n in 1..=*depth {
            if ws.len().pow(n as u32) <= cap {
                seqs(ws.len(), n, &mut |ix| {
                    if cx.mine() {
                        let h: Vec<W> = ix.iter().map(|i| ws[*i]).collect();
                        cx.case("pattern history", || serde_json::to_string(&(l, &h)).unwrap(), || hist_p(l, &h));
                    }
                });
            } else {
                cx.cap(format!("pattern histories of {} on {}: {} writes, not explored", n, name, ws.len()));
            }
            if wt.len().pow(n as u32) <= cap {
                seqs(wt.len(), n, &mut |ix| {
                    if cx.mine() {
                        let h: Vec<WT> = ix.iter().map(|i| wt[*i]).collect();
                        cx.case("transformation history", || serde_json::to_string(&(l, &h)).unwrap(), || hist_t(l, &h));
                    }
                });
            } else {
                cx.cap(format!("transformation histories of {} on {}: {} writes, not explored", n, name, wt.len()));
            }
        }
    }
    let mut layouts: Vec<Vec<(usize, usize)>> = vec![];
    for np in 0..=255 {
        layouts.push(vec![(np, 2)]);
        layouts.push(vec![(np % 7, 3), (np, 4), (3, 2)]);
    }
    for no in 1..=107 {
        layouts.push(vec![(5, no)]);
        layouts.push(vec![(2, no), (4, 108 - no)]);
    }
    for n in [10usize, 50, 200] {
        layouts.push((0..n).map(|i| (i % 5, 1 + i % 6)).collect());
    }
    for n in mc::zoo::wide_sizes(if t { 1 << 18 } else { 1 << 17 }) {
        if cx.mine() {
            cx.case("wide", || n.to_string(), || wide_case(n));
        }
    }
    for l in &layouts {
        if cx.mine() {
            cx.case("places", || serde_json::to_string(l).unwrap(), || places(l));
        }
    }
    for no in 1..=107usize {
        if cx.mine() {
            cx.case("packing", || no.to_string(), || packing(no));
        }
    }
}
fn replay(kind: &str, case: &str) -> Result<(), String> {
    match kind {
        "pattern history" => {
            let (l, h): (Vec<(usize, usize)>, Vec<W>) = serde_json::from_str(case).map_err(|e| e.to_string())?;
            hist_p(&l, &h)
        }
        "transformation history" => {
            let (l, h): (Vec<(usize, usize)>, Vec<WT>) = serde_json::from_str(case).map_err(|e| e.to_string())?;
            hist_t(&l, &h)
        }
        "places" => places(&serde_json::from_str::<Vec<(usize, usize)>>(case).map_err(|e| e.to_string())?),
        "wide" => wide_case(case.parse().map_err(|_| "case")?),
        _ => packing(case.parse().map_err(|_| "case")?),
    }
}
