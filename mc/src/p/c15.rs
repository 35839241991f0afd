//! C15: in-place buffers against step-by-step application.
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use crate::zoo::*;
use cubing::kpuzzle::*;

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        level: "model_checking",
        rule: "All sequences of apply (each of several transformations), read and compare operations over two pattern buffers and over two transformation buffers up to a depth, on several puzzle shapes and starting values; after every step both current values (read twice) are compared with the reference model and with the library's own stepwise application, and the buffers' equality with the equality of their contents. All write-into operations over all triples of small values, with dirty targets. states = distinct pairs of buffer contents, transitions = applications, traces = operation sequences.",
        assumptions: &[],
        explore,
        replay,
        hang_s: 60,
        nshards: 8,
    }
}
struct Shape {
    name: &'static str,
    k: KPuzzle,
    o: Vec<ROrbit>,
    ts: Vec<RT>,
    pa: RP,
    pb: RP,
}
fn info(k: &KPuzzle) -> Vec<ROrbit> {
    k.orbit_info_iter().map(|x| ROrbit { name: x.name.0.clone(), np: x.num_pieces as usize, no: x.num_orientations as usize }).collect()
}
fn shapes() -> Result<Vec<Shape>, String> {
    let mut v = vec![];
    let p = sq();
    let mut pb = p.default.clone();
    pb[0].2[1] = 1;
    pb[0].0[4] = 0;
    v.push(Shape {
        name: "sq",
        k: load(&p)?,
        o: p.orbits.clone(),
        ts: vec![p.moves[0].1.clone(), p.moves[3].1.clone(), p.moves[4].1.clone()],
        pa: p.default.clone(),
        pb,
    });
    let o = orb(&[(0, 4)]);
    let e = RPuz::new(PSpec { name: "none", orbits: vec![("O0", 0, 4)], default: None, moves: vec![], derived: vec![] });
    v.push(Shape { name: "none", k: load(&e)?, ts: vec![rid(&o)], pa: rsolved(&o), pb: rsolved(&o), o });
    let o = orb(&[(1, 4), (2, 1)]);
    let e = RPuz::new(PSpec { name: "twist", orbits: vec![("O0", 1, 4), ("O1", 2, 1)], default: None, moves: vec![], derived: vec![] });
    let mut pb = rsolved(&o);
    pb[0].2[0] = 2;
    v.push(Shape {
        name: "twist",
        k: load(&e)?,
        ts: vec![vec![(vec![0], vec![1]), (vec![1, 0], vec![0, 0])], vec![(vec![0], vec![2]), (vec![0, 1], vec![0, 0])], rid(&o)],
        pa: rsolved(&o),
        pb,
        o,
    });
    let k = cubing::puzzles::cube3x3x3_kpuzzle().clone();
    let o = info(&k);
    let ts = ["R", "U'", "Fw2"]
        .iter()
        .map(|m| {
            let m = m.parse().map_err(|_| "parse".to_string())?;
            Ok(t_read(&k.transformation_from_move(&m).map_err(|e| e.to_string())?))
        })
        .collect::<Result<Vec<_>, String>>()?;
    let pa = p_read(&k.default_pattern());
    let mut pb = pa.clone();
    pb[2].2 = vec![1; 6];
    v.push(Shape { name: "3x3x3", k, o, ts, pa, pb });
    Ok(v)
}
/// op: (buffer, transformation) or (buffer, read) or compare
fn run_p(s: &Shape, kts: &[KTransformation], same: bool, ops: &[usize]) -> Result<(), String> {
    let nt = kts.len();
    let (pa, pb) = (&s.pa, if same { &s.pa } else { &s.pb });
    let ia = p_make(&s.k, &s.o, pa)?;
    let ib = p_make(&s.k, &s.o, pb)?;
    let mut bufs = [KPatternBuffer::from(ia.clone()), KPatternBuffer::from(ib.clone())];
    let mut refs = [pa.clone(), pb.clone()];
    let mut steps = [ia.clone(), ib.clone()];
    for &op in ops {
        let b = op & 1;
        if op / 2 < nt {
            bufs[b].apply_transformation(&kts[op / 2]);
            refs[b] = rapply(&s.o, &refs[b], &s.ts[op / 2]);
            steps[b] = steps[b].apply_transformation(&kts[op / 2]);
            trans(1);
        } else {
            // reading and comparing in the middle
            must("current", p_read(bufs[b].current()), p_canon(&s.o, &refs[b]))?;
            must("current again", p_read(bufs[b].current()), p_canon(&s.o, &refs[b]))?;
            ensure((bufs[b] == bufs[1 - b]) == (refs[b] == refs[1 - b]), || "buffer equality in the middle".into())?;
        }
    }
    for b in 0..2 {
        must("current", p_read(bufs[b].current()), p_canon(&s.o, &refs[b]))?;
        ensure(*bufs[b].current() == steps[b], || "current differs from stepwise application".into())?;
        must("current again", p_read(bufs[b].current()), p_canon(&s.o, &refs[b]))?;
    }
    let eq = refs[0] == refs[1];
    ensure((bufs[0] == bufs[1]) == eq && (bufs[1] == bufs[0]) == eq && (bufs[0] != bufs[1]) != eq, || format!("buffers compare {} but their values are {}", bufs[0] == bufs[1], if eq { "equal" } else { "different" }))?;
    must("initial", p_read(&ia), p_canon(&s.o, pa))?;
    state_of(&(s.name, &refs));
    trace(1);
    Ok(())
}
fn run_t(s: &Shape, kts: &[KTransformation], same: bool, ops: &[usize]) -> Result<(), String> {
    let nt = kts.len();
    let ra = rid(&s.o);
    let rb = if same { ra.clone() } else { s.ts[nt - 1].clone() };
    let ia = t_make(&s.k, &s.o, &ra)?;
    let ib = t_make(&s.k, &s.o, &rb)?;
    let mut bufs = [KTransformationBuffer::from(ia.clone()), KTransformationBuffer::from(ib.clone())];
    let mut refs = [ra.clone(), rb.clone()];
    let mut steps = [ia.clone(), ib.clone()];
    for &op in ops {
        let b = op & 1;
        if op / 2 < nt {
            bufs[b].apply_transformation(&kts[op / 2]);
            refs[b] = rcomp(&s.o, &refs[b], &s.ts[op / 2]);
            steps[b] = steps[b].apply_transformation(&kts[op / 2]);
            trans(1);
        } else {
            must("current", t_read(bufs[b].current()), refs[b].clone())?;
            must("current again", t_read(bufs[b].current()), refs[b].clone())?;
            ensure((bufs[b] == bufs[1 - b]) == (refs[b] == refs[1 - b]), || "buffer equality in the middle".into())?;
        }
    }
    for b in 0..2 {
        must("current", t_read(bufs[b].current()), refs[b].clone())?;
        ensure(*bufs[b].current() == steps[b], || "current differs from stepwise application".into())?;
        must("current again", t_read(bufs[b].current()), refs[b].clone())?;
    }
    let eq = refs[0] == refs[1];
    ensure((bufs[0] == bufs[1]) == eq && (bufs[1] == bufs[0]) == eq && (bufs[0] != bufs[1]) != eq, || format!("buffers compare {} but their values are {}", bufs[0] == bufs[1], if eq { "equal" } else { "different" }))?;
    must("initial", t_read(&ia), ra)?;
    state_of(&(s.name, "t", &refs));
    trace(1);
    Ok(())
}
fn explore(cx: &mut Cx) {
    let shapes = match guarded(shapes) {
        Ok(s) => s,
        Err(e) => return cx.violate("shapes", String::new(), e),
    };
    for s in &shapes {
        let kts = match guarded(|| s.ts.iter().map(|t| t_make(&s.k, &s.o, t)).collect::<Result<Vec<_>, _>>()) {
            Ok(v) => v,
            Err(e) => {
                cx.violate("shape", s.name.into(), e);
                continue;
            }
        };
        let base = 2 * (kts.len() + 1);
        let depth = match (s.name, cx.thorough) {
            ("none", _) => 8,
            ("3x3x3", false) => 5,
            ("3x3x3", true) => 6,
            (_, false) => 6,
            (_, true) => 7,
        };
        for same in [true, false] {
            for n in 0..=depth {
                let mut heads = vec![];
                seqs(base, n.min(2), &mut |h| heads.push(h.to_vec()));
                for h in heads {
                    if !cx.mine() {
                        continue;
                    }
                    seqs(base, n - h.len(), &mut |t| {
                        let ops: Vec<usize> = h.iter().chain(t).copied().collect();
                        cx.case("pattern buffers", || format!("{} {} {:?}", s.name, same, ops), || run_p(s, &kts, same, &ops));
                        cx.case("transformation buffers", || format!("{} {} {:?}", s.name, same, ops), || run_t(s, &kts, same, &ops));
                    });
                }
            }
        }
        // long runs: one buffer fed many transformations, every prefix checked
        let len = if cx.thorough { 200000 } else { 3000 };
        for stride in 1..=8usize {
            if !cx.mine() {
                continue;
            }
            cx.case("long run", || format!("{} {}", s.name, stride), || {
                let mut b = KPatternBuffer::from(p_make(&s.k, &s.o, &s.pb)?);
                let mut c = KTransformationBuffer::from(k_id(&s.k));
                let (mut rp, mut rt) = (s.pb.clone(), rid(&s.o));
                for i in 0..len {
                    let x = (i * stride + i / 7) % kts.len();
                    b.apply_transformation(&kts[x]);
                    c.apply_transformation(&kts[x]);
                    rp = rapply(&s.o, &rp, &s.ts[x]);
                    rt = rcomp(&s.o, &rt, &s.ts[x]);
                    trans(2);
                    must("current", p_read(b.current()), p_canon(&s.o, &rp))?;
                    must("current", t_read(c.current()), rt.clone())?;
                }
                trace(2);
                Ok(())
            });
        }
    }
    singles(cx);
    into(cx);
    // very long runs of each kind of buffer by itself: what counts steps cannot count for ever
    let len = if cx.thorough { 1 << 20 } else { 140_000 };
    for s in &shapes {
        for kind in 0..2 {
            if cx.mine() {
                cx.case("very long run", || format!("{} {}", s.name, kind), || {
                    let kts = s.ts.iter().map(|t| t_make(&s.k, &s.o, t)).collect::<Result<Vec<_>, _>>()?;
                    let mut b = KPatternBuffer::from(p_make(&s.k, &s.o, &s.pb)?);
                    let mut c = KTransformationBuffer::from(k_id(&s.k));
                    let (mut p, mut t) = (b.current().clone(), c.current().clone());
                    for i in 0..len {
                        let x = &kts[(i + i / 5) % kts.len()];
                        trans(1);
                        if kind == 0 {
                            b.apply_transformation(x);
                            p = p.apply_transformation(x);
                            ensure(*b.current() == p, || format!("current after {} steps", i + 1))?;
                        } else {
                            c.apply_transformation(x);
                            t = t.apply_transformation(x);
                            ensure(*c.current() == t, || format!("current after {} steps", i + 1))?;
                        }
                    }
                    trace(1);
                    Ok(())
                });
            }
        }
    }
    for n in crate::zoo::wide_sizes(if cx.thorough { 1 << 18 } else { 1 << 17 }) {
        if cx.mine() {
            use crate::zoo::*;
            cx.case("wide", || n.to_string(), || {
                let (k, o) = super::c07::blank(&wide(n))?;
                let mut ts = vec![wide_t(&o, 1)];
                ts.extend(wide_single(&o).into_iter().rev().take(1));
                let kts: Vec<KTransformation> = ts.iter().map(|t| t_make(&k, &o, t)).collect::<Result<_, _>>()?;
                let s = Shape { name: "wide", k, pa: wide_p(&o), pb: rsolved(&o), o, ts };
                for ops in [&[0usize][..], &[0, 4, 1], &[0, 1, 4], &[1, 2, 0, 4, 3], &[0, 5, 2, 4, 1, 0, 1]] {
                    run_p(&s, &kts, true, ops)?;
                    run_t(&s, &kts, true, ops)?;
                }
                Ok(())
            });
        }
    }
}
/// Transformations that change a single entry (or two), on orbits of every orientation count and
/// of many sizes: such a change is as good as any other.
fn singles(cx: &mut Cx) {
    let mut layouts: Vec<Vec<(usize, usize)>> = (1..=107).map(|no| vec![(1, no)]).collect();
    layouts.extend((1..=107).filter(|no| *no < 20 || no % 9 == 0).map(|no| vec![(2, 1), (1, 3), (2, no)]));
    layouts.extend((1..=if cx.thorough { 90 } else { 40 }).map(|np| vec![(np, 2)]));
    layouts.extend([3, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255].map(|np| vec![(np, 1), (2, 3)]));
    for l in layouts {
        if !cx.mine() {
            continue;
        }
        let o = orb(&l);
        let p = RPuz::new(PSpec { name: "singles", orbits: o.iter().map(|x| (x.name.as_str(), x.np, x.no)).collect(), default: None, moves: vec![], derived: vec![] });
        let k = match load(&p) {
            Ok(k) => k,
            Err(e) => {
                cx.violate("layout", format!("{:?}", l), e);
                continue;
            }
        };
        let mut ts = vec![];
        for q in 0..o.len() {
            for i in 0..o[q].np {
                for d in 1..o[q].no {
                    let mut t = rid(&o);
                    t[q].1[i] = d;
                    ts.push(t);
                }
                if i > 0 {
                    let mut t = rid(&o);
                    t[q].0.swap(i, i - 1);
                    ts.push(t.clone());
                    t[q].1[i] = o[q].no - 1;
                    ts.push(t);
                }
            }
        }
        for (n, t) in ts.iter().enumerate() {
            cx.case("single change", || format!("{:?} {}", l, n), || {
                let other = &ts[(n + 1) % ts.len()];
                let s = Shape { name: "singles", k: k.clone(), o: o.clone(), ts: vec![t.clone(), other.clone()], pa: rsolved(&o), pb: rsolved(&o) };
                let kts = [t_make(&k, &o, t)?, t_make(&k, &o, other)?];
                for ops in [&[0usize][..], &[0, 4, 0], &[0, 1, 4], &[0, 2, 0, 4, 3], &[0, 5, 2, 4, 1, 0, 0]] {
                    run_p(&s, &kts, true, ops)?;
                    run_t(&s, &kts, true, ops)?;
                }
                Ok(())
            });
        }
    }
}
fn k_id(k: &KPuzzle) -> KTransformation {
    k.identity_transformation()
}
/// All (value, transformation, dirty target) triples of small layouts.
fn into(cx: &mut Cx) {
    for (name, l, pv) in [("2x2", vec![(2, 2)], 2), ("1x4+2x1", vec![(1, 4), (2, 1)], 2), ("1x6", vec![(1, 6)], 1), ("2x3", vec![(2, 3)], 2)] {
        let o = orb(&l);
        let p = RPuz::new(PSpec { name, orbits: o.iter().map(|x| (x.name.as_str(), x.np, x.no)).collect(), default: None, moves: vec![], derived: vec![] });
        let k = match load(&p) {
            Ok(k) => k,
            Err(e) => {
                cx.violate("layout", name.into(), e);
                continue;
            }
        };
        let (rps, rts) = (all_p(&o, pv), all_t(&o));
        let made = guarded(|| {
            Ok((
                rps.iter().map(|p| p_make(&k, &o, p)).collect::<Result<Vec<_>, _>>()?,
                rts.iter().map(|t| t_make(&k, &o, t)).collect::<Result<Vec<_>, _>>()?,
            ))
        });
        let (ps, ts) = match made {
            Ok(v) => v,
            Err(e) => {
                cx.violate("layout", name.into(), e);
                continue;
            }
        };
        for i in 0..ps.len() {
            for j in 0..ts.len() {
                if !cx.mine() {
                    continue;
                }
                cx.case("pattern into", || format!("{} {:?} {:?}", name, rps[i], rts[j]), || {
                    let want = rapply(&o, &rps[i], &rts[j]);
                    let fresh = ps[i].apply_transformation(&ts[j]);
                    for d in 0..ps.len() {
                        let mut target = ps[d].clone();
                        ps[i].apply_transformation_into(&ts[j], &mut target);
                        trans(1);
                        must("written", p_read(&target), want.clone())?;
                        ensure(target == fresh, || "written value differs from the returned one".into())?;
                        must("copy of the old target", p_read(&ps[d]), rps[d].clone())?;
                    }
                    must("input", p_read(&ps[i]), rps[i].clone())?;
                    must("input", t_read(&ts[j]), rts[j].clone())?;
                    state_of(&(name, &want));
                    trace(1);
                    Ok(())
                });
            }
        }
        for i in 0..ts.len() {
            for j in 0..ts.len() {
                if !cx.mine() {
                    continue;
                }
                cx.case("transformation into", || format!("{} {:?} {:?}", name, rts[i], rts[j]), || {
                    let want = rcomp(&o, &rts[i], &rts[j]);
                    let fresh = ts[i].apply_transformation(&ts[j]);
                    for d in 0..ts.len() {
                        let mut target = ts[d].clone();
                        ts[i].apply_transformation_into(&ts[j], &mut target);
                        trans(1);
                        must("written", t_read(&target), want.clone())?;
                        ensure(target == fresh, || "written value differs from the returned one".into())?;
                        must("copy of the old target", t_read(&ts[d]), rts[d].clone())?;
                    }
                    must("input", t_read(&ts[i]), rts[i].clone())?;
                    must("input", t_read(&ts[j]), rts[j].clone())?;
                    state_of(&(name, "t", &want));
                    trace(1);
                    Ok(())
                });
            }
        }
    }
}
fn replay(_kind: &str, _case: &str) -> Result<(), String> {
    Ok(())
}
