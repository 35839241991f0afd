//! C12: malformed pattern and transformation data.
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use cubing::kpuzzle::*;

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        level: "model_checking",
        rule: "All small data tables (valid and invalid), all single and double mutations of a well-formed pattern and transformation (every byte value in every field, lengths, orbits), all truncations and single-byte edits of their JSON. The verdict and the value read back are compared with the validity rule. states = distinct inputs, transitions = imports.",
        assumptions: &["surplus entries beyond the number of pieces and surplus orbits are ignored, as today; surplus entries holding invalid values are not judged"],
        explore,
        replay,
        hang_s: 30,
        nshards: 8,
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct PD(pub Vec<(String, Vec<u8>, Vec<u8>, Option<Vec<u8>>)>);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TD(pub Vec<(String, Vec<u8>, Vec<u8>)>);
impl PD {
    pub fn data(&self) -> KPatternData {
        self.0.iter().map(|(n, p, o, m)| (KPuzzleOrbitName(n.clone()), KPatternOrbitData { pieces: p.clone(), orientation: o.clone(), orientation_mod: m.clone() })).collect()
    }
    /// None: not judged
    fn valid(&self, os: &[ROrbit]) -> Option<Option<RP>> {
        let mut out = vec![];
        for o in os {
            let e = self.0.iter().find(|e| e.0 == o.name);
            let Some(e) = e else {
                if o.np == 0 {
                    return None;
                }
                return Some(None);
            };
            if e.1.len() < o.np || e.2.len() < o.np || e.3.as_ref().map_or(false, |m| m.len() < o.np) {
                return Some(None);
            }
            let mut q = (vec![], vec![], vec![]);
            for i in 0..o.np {
                let m = e.3.as_ref().map_or(0, |m| m[i] as usize);
                let x = e.2[i] as usize;
                if m != 0 && o.no % m != 0 {
                    return Some(None);
                }
                if x >= if m == 0 { o.no } else { m } {
                    return Some(None);
                }
                q.0.push(e.1[i]);
                q.1.push(x);
                q.2.push(if m == o.no { 0 } else { m });
            }
            out.push(q);
        }
        Some(Some(out))
    }
}
impl TD {
    pub fn data(&self) -> KTransformationData {
        self.0.iter().map(|(n, p, o)| (KPuzzleOrbitName(n.clone()), KTransformationOrbitData { permutation: p.clone(), orientation_delta: o.clone() })).collect()
    }
    fn valid(&self, os: &[ROrbit]) -> Option<Option<RT>> {
        let mut out = vec![];
        for o in os {
            let e = self.0.iter().find(|e| e.0 == o.name);
            let Some(e) = e else {
                if o.np == 0 {
                    return None;
                }
                return Some(None);
            };
            if e.1.len() < o.np || e.2.len() < o.np {
                return Some(None);
            }
            let p: Vec<usize> = e.1[..o.np].iter().map(|x| *x as usize).collect();
            let d: Vec<usize> = e.2[..o.np].iter().map(|x| *x as usize).collect();
            let mut s = p.clone();
            s.sort();
            if s != (0..o.np).collect::<Vec<_>>() || d.iter().any(|x| *x >= o.no) {
                return Some(None);
            }
            out.push((p, d));
        }
        Some(Some(out))
    }
}
fn pat(k: &KPuzzle, os: &[ROrbit], d: &PD, json: bool) -> Result<(), String> {
    trans(1);
    trace(1);
    state_of(d);
    let Some(want) = d.valid(os) else { return Ok(()) };
    let data = d.data();
    let mut rs = vec![KPattern::try_from_data(k, &data)];
    if json {
        rs.push(KPattern::try_from_json(k, &serde_json::to_vec(&data).unwrap()));
        rs.push(KPattern::try_from_data(k.clone(), &data));
    }
    for r in rs {
        match (&want, r) {
            (None, Err(e)) => ensure(!e.to_string().is_empty(), || "empty error".into())?,
            (Some(w), Ok(p)) => must("pattern", &p_read(&p), w)?,
            (None, Ok(p)) => return Err(format!("accepted as {:?}", p_read(&p))),
            (Some(_), Err(e)) => return Err(format!("refused: {}", e)),
        }
    }
    Ok(())
}
fn tra(k: &KPuzzle, os: &[ROrbit], d: &TD, json: bool) -> Result<(), String> {
    trans(1);
    trace(1);
    state_of(d);
    let Some(want) = d.valid(os) else { return Ok(()) };
    let data = d.data();
    let mut rs = vec![KTransformation::try_from_data(k, &data)];
    if json {
        rs.push(KTransformation::try_from_json(k, &serde_json::to_vec(&data).unwrap()));
        rs.push(KTransformation::try_from_data(k.clone(), &data));
    }
    for r in rs {
        match (&want, r) {
            (None, Err(e)) => ensure(!e.to_string().is_empty(), || "empty error".into())?,
            (Some(w), Ok(p)) => must("transformation", &t_read(&p), w)?,
            (None, Ok(p)) => return Err(format!("accepted as {:?}", t_read(&p))),
            (Some(_), Err(e)) => return Err(format!("refused: {}", e)),
        }
    }
    Ok(())
}
fn os() -> Vec<ROrbit> {
    vec![
        ROrbit { name: "EDGES".into(), np: 3, no: 12 },
        ROrbit { name: "CORNERS".into(), np: 4, no: 3 },
        ROrbit { name: "C".into(), np: 2, no: 1 },
    ]
}
fn puz(o: &[ROrbit]) -> Result<KPuzzle, String> {
    load(&RPuz::new(PSpec { name: "data", orbits: o.iter().map(|o| (o.name.as_str(), o.np, o.no)).collect(), default: None, moves: vec![], derived: vec![] }))
}
fn base_p() -> PD {
    PD(vec![
        ("EDGES".into(), vec![0, 7, 255], vec![3, 0, 5], Some(vec![4, 1, 6])),
        ("CORNERS".into(), vec![3, 3, 0, 1], vec![2, 0, 1, 0], Some(vec![0, 1, 3, 0])),
        ("C".into(), vec![1, 0], vec![0, 0], None),
    ])
}
fn base_t() -> TD {
    TD(vec![
        ("EDGES".into(), vec![2, 0, 1], vec![3, 0, 11]),
        ("CORNERS".into(), vec![3, 2, 0, 1], vec![2, 0, 1, 0]),
        ("C".into(), vec![1, 0], vec![0, 0]),
    ])
}
fn mutate_vec(v: &[u8], vals: &[u8], f: &mut dyn FnMut(Vec<u8>)) {
    for i in 0..v.len() {
        for x in vals {
            if *x != v[i] {
                let mut w = v.to_vec();
                w[i] = *x;
                f(w);
            }
        }
    }
    for n in 0..v.len() {
        f(v[..n].to_vec());
    }
    let mut w = v.to_vec();
    w.push(0);
    f(w.clone());
    f(vec![]);
}
fn mut_p(b: &PD, vals: &[u8], f: &mut dyn FnMut(PD)) {
    for e in 0..b.0.len() {
        mutate_vec(&b.0[e].1, vals, &mut |w| {
            let mut c = b.clone();
            c.0[e].1 = w;
            f(c)
        });
        mutate_vec(&b.0[e].2, vals, &mut |w| {
            let mut c = b.clone();
            c.0[e].2 = w;
            f(c)
        });
        if let Some(m) = &b.0[e].3 {
            mutate_vec(m, vals, &mut |w| {
                let mut c = b.clone();
                c.0[e].3 = Some(w);
                f(c)
            });
            let mut c = b.clone();
            c.0[e].3 = None;
            f(c);
        } else {
            for m in [0u8, 1, 2, 255] {
                let mut c = b.clone();
                c.0[e].3 = Some(vec![m; c.0[e].1.len()]);
                f(c);
            }
        }
        let mut c = b.clone();
        c.0.remove(e);
        f(c);
        let mut c = b.clone();
        c.0[e].0 = c.0[e].0.to_lowercase();
        f(c);
        let mut c = b.clone();
        c.0[e].0.push(' ');
        f(c);
    }
    let mut c = b.clone();
    c.0.push(("EXTRA".into(), vec![], vec![], None));
    f(c);
}
fn mut_t(b: &TD, vals: &[u8], f: &mut dyn FnMut(TD)) {
    for e in 0..b.0.len() {
        mutate_vec(&b.0[e].1, vals, &mut |w| {
            let mut c = b.clone();
            c.0[e].1 = w;
            f(c)
        });
        mutate_vec(&b.0[e].2, vals, &mut |w| {
            let mut c = b.clone();
            c.0[e].2 = w;
            f(c)
        });
        let mut c = b.clone();
        c.0.remove(e);
        f(c);
        let mut c = b.clone();
        c.0[e].0 = c.0[e].0.to_lowercase();
        f(c);
    }
    let mut c = b.clone();
    c.0.push(("EXTRA".into(), vec![], vec![]));
    f(c);
}
fn json_case(k: &KPuzzle, o: &[ROrbit], s: &[u8], pattern: bool) -> Result<(), String> {
    trans(1);
    trace(1);
    state_of(s);
    if pattern {
        let shape: Option<KPatternData> = serde_json::from_slice(s).ok();
        let r = KPattern::try_from_json(k, s);
        match shape {
            None => ensure(r.is_err(), || "accepted text of the wrong shape".into()),
            Some(d) => {
                let pd = PD(d.into_iter().map(|(n, e)| (n.0, e.pieces, e.orientation, e.orientation_mod)).collect());
                match (pd.valid(o), r) {
                    (None, _) => Ok(()),
                    (Some(None), Err(_)) => Ok(()),
                    (Some(Some(w)), Ok(p)) => must("pattern", p_read(&p), w),
                    (w, r) => Err(format!("got {:?}, want {:?}", r.map(|p| p_read(&p)).map_err(|e| e.to_string()), w)),
                }
            }
        }
    } else {
        let shape: Option<KTransformationData> = serde_json::from_slice(s).ok();
        let r = KTransformation::try_from_json(k, s);
        match shape {
            None => ensure(r.is_err(), || "accepted text of the wrong shape".into()),
            Some(d) => {
                let td = TD(d.into_iter().map(|(n, e)| (n.0, e.permutation, e.orientation_delta)).collect());
                match (td.valid(o), r) {
                    (None, _) => Ok(()),
                    (Some(None), Err(_)) => Ok(()),
                    (Some(Some(w)), Ok(p)) => must("transformation", t_read(&p), w),
                    (w, r) => Err(format!("got {:?}, want {:?}", r.map(|p| t_read(&p)).map_err(|e| e.to_string()), w)),
                }
            }
        }
    }
}
fn explore(cx: &mut Cx) {
    let t = cx.thorough;
    let o = os();
    let k = match puz(&o) {
        Ok(k) => k,
        Err(e) => return cx.violate("setup", "puzzle".into(), e),
    };
    let every: Vec<u8> = (0..=255).collect();
    let few: Vec<u8> = if t { vec![0, 1, 2, 3, 4, 5, 6, 11, 12, 13, 24, 107, 128, 255] } else { vec![0, 1, 2, 3, 5, 12, 255] };
    if cx.mine() {
        cx.case("pattern", || "base".into(), || pat(&k, &o, &base_p(), true));
        cx.case("transformation", || "base".into(), || tra(&k, &o, &base_t(), true));
    }
    mut_p(&base_p(), &every, &mut |d| {
        if cx.mine() {
            cx.case("pattern", || format!("{:?}", d), || pat(&k, &o, &d, true));
        }
    });
    mut_t(&base_t(), &every, &mut |d| {
        if cx.mine() {
            cx.case("transformation", || format!("{:?}", d), || tra(&k, &o, &d, true));
        }
    });
    mut_p(&base_p(), &few, &mut |c| {
        if cx.mine() {
            mut_p(&c, &few, &mut |d| cx.case("pattern", || format!("{:?}", d), || pat(&k, &o, &d, false)));
        }
    });
    mut_t(&base_t(), &few, &mut |c| {
        if cx.mine() {
            mut_t(&c, &few, &mut |d| {
                cx.case("transformation", || format!("{:?}", d), || tra(&k, &o, &d, false));
                if t {
                    mut_t(&d, &[0, 1, 3], &mut |e| cx.case("transformation", || format!("{:?}", e), || tra(&k, &o, &e, false)));
                }
            });
        }
    });
    // complete small tables, including lengths around the number of pieces
    for (np, no) in [(0usize, 1usize), (1, 1), (1, 2), (1, 4), (2, 2), (2, 4), (3, 2), (2, 6), (4, 1), (3, 3)] {
        let o = orb(&[(np, no)]);
        let k = match puz(&o) {
            Ok(k) => k,
            Err(e) => return cx.violate("setup", format!("{} {}", np, no), e),
        };
        for lp in np.saturating_sub(1)..=np + 1 {
            for lo in np.saturating_sub(1)..=np + 1 {
                let mut ps = vec![];
                seqs(np + 2, lp, &mut |x| ps.push(x.iter().map(|v| *v as u8).collect::<Vec<u8>>()));
                let mut ds = vec![];
                seqs(no + 2, lo, &mut |x| ds.push(x.iter().map(|v| *v as u8).collect::<Vec<u8>>()));
                for p in &ps {
                    if !cx.mine() {
                        continue;
                    }
                    for d in &ds {
                        if p.len() > np && *p.last().unwrap() != 0 || d.len() > np && *d.last().unwrap() != 0 {
                            continue; // surplus garbage: not judged
                        }
                        let x = TD(vec![("O0".into(), p.clone(), d.clone())]);
                        cx.case("small transformation", || format!("{} {} {:?}", np, no, x), || tra(&k, &o, &x, false));
                        if p.iter().all(|v| *v == p[0]) {
                            for lm in np.saturating_sub(1)..=np + 1 {
                                seqs(no + 2, lm, &mut |m| {
                                    if m.len() > np && *m.last().unwrap() != 0 {
                                        return;
                                    }
                                    if lm * lo > 6 && !t && m.iter().any(|v| *v > 2 && *v != no) {
                                        return;
                                    }
                                    let x = PD(vec![("O0".into(), p.clone(), d.clone(), Some(m.iter().map(|v| *v as u8).collect()))]);
                                    cx.case("small pattern", || format!("{} {} {:?}", np, no, x), || pat(&k, &o, &x, false));
                                });
                            }
                            let x = PD(vec![("O0".into(), p.clone(), d.clone(), None)]);
                            cx.case("small pattern", || format!("{} {} {:?}", np, no, x), || pat(&k, &o, &x, true));
                        }
                    }
                }
            }
        }
    }
    // every (orientation, modulus) for a selection of counts, with the other piece valid
    for no in 1..=107usize {
        if !cx.mine() {
            continue;
        }
        let o = orb(&[(2, no)]);
        let k = match puz(&o) {
            Ok(k) => k,
            Err(e) => return cx.violate("setup", no.to_string(), e),
        };
        for m in 0..=255u8 {
            for x in [0u8, 1, m.wrapping_sub(1), m, m.wrapping_add(1), no as u8 - 1, no as u8, no as u8 + 1, 254, 255] {
                for second in [false, true] {
                    let d = if second {
                        PD(vec![("O0".into(), vec![0, 1], vec![0, x], Some(vec![0, m]))])
                    } else {
                        PD(vec![("O0".into(), vec![0, 1], vec![x, 0], Some(vec![m, 1]))])
                    };
                    cx.case("moduli", || format!("{} {:?}", no, d), || pat(&k, &o, &d, false));
                }
            }
        }
    }
    // big orbits: every two entries made equal, every two exchanged, every three turned with a
    // wrong one; every single entry out of range
    for np in [5usize, 8, 9, 16, 17, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 200, 255] {
        for no in [1usize, 3] {
            let o = orb(&[(np, no), (2, 2)]);
            let k = match puz(&o) {
                Ok(k) => k,
                Err(e) => return cx.violate("setup", format!("{} {}", np, no), e),
            };
            for i in 0..np {
                if !cx.mine() {
                    continue;
                }
                let two = ("O1".to_string(), vec![1, 0], vec![1, 0]);
                for turn in [0usize, 1] {
                    let p: Vec<u8> = (0..np).map(|x| ((x + turn * 3) % np) as u8).collect();
                    let d: Vec<u8> = (0..np).map(|x| (x * turn % no) as u8).collect();
                    let go = |cx: &mut Cx, p: Vec<u8>, d: Vec<u8>| {
                        let x = TD(vec![("O0".into(), p, d), two.clone()]);
                        cx.case("big orbit", || format!("{} {} {:?}", np, no, x), || tra(&k, &o, &x, false));
                    };
                    for j in 0..np {
                        if i == j || (np > 70 && !t && (i + j) % 4 > 0) {
                            continue;
                        }
                        let mut q = p.clone();
                        q[i] = q[j];
                        go(cx, q.clone(), d.clone());
                        // the same sum, the same exclusive or, or the same sum of squares as a permutation
                        let l = (j + 1) % np;
                        if l != i {
                            let mut r = p.clone();
                            r[i] = p[i].wrapping_add(1);
                            r[j] = p[j].wrapping_sub(1);
                            go(cx, r, d.clone());
                            let mut r = p.clone();
                            r[i] = p[i] ^ 1;
                            r[j] = p[j] ^ 1;
                            go(cx, r, d.clone());
                            let mut r = q.clone();
                            r[l] = p[i];
                            go(cx, r, d.clone());
                        }
                        let mut r = p.clone();
                        r.swap(i, j);
                        go(cx, r, d.clone());
                    }
                    for v in [np as u8, (np as u8).wrapping_add(1), 128, 254, 255] {
                        let mut q = p.clone();
                        q[i] = v;
                        go(cx, q, d.clone());
                        let mut e = d.clone();
                        e[i] = v;
                        go(cx, p.clone(), e);
                    }
                    for v in 0..=no as u8 {
                        let mut e = d.clone();
                        e[i] = v;
                        go(cx, p.clone(), e);
                    }
                    for (v, m) in [(0, 0), (no as u8 - 1, 0), (no as u8, 0), (no as u8, no as u8), (0, no as u8), (1, 1), (0, 1), (0, 2), (0, no as u8 + 1), (255, 255)] {
                        let (mut e, mut ms) = (vec![0; np], vec![0; np]);
                        e[i] = v;
                        ms[i] = m;
                        let x = PD(vec![("O0".into(), p.iter().map(|x| x.wrapping_mul(7)).collect(), e, Some(ms)), ("O1".into(), vec![0, 9], vec![1, 0], None)]);
                        cx.case("big orbit pattern", || format!("{} {} {:?}", np, no, x), || pat(&k, &o, &x, false));
                    }
                }
                // squares: 1 + 64 + 16 = 0 + 81 + 0, and alike
                if i == 0 && np >= 10 {
                    for (from, to) in [([1, 8, 4], [0, 9, 0]), ([1, 2, 9], [1, 6, 7]), ([0, 5, 5], [3, 4, 5]), ([3, 4, 0], [0, 5, 0])] {
                        let mut p: Vec<u8> = (0..np as u8).collect();
                        for (a, b) in from.iter().zip(to) {
                            p[*a] = b;
                        }
                        let x = TD(vec![("O0".into(), p, vec![0; np]), two.clone()]);
                        cx.case("big orbit", || format!("{} {} {:?}", np, no, x), || tra(&k, &o, &x, false));
                    }
                }
            }
        }
    }
    // JSON text
    let jp = serde_json::to_vec(&rp_value(&base_p())).unwrap();
    let jt = serde_json::to_vec(&base_t().data().iter().map(|(n, e)| (n.0.clone(), serde_json::json!({"permutation": e.permutation, "orientationDelta": e.orientation_delta}))).collect::<std::collections::BTreeMap<_, _>>()).unwrap();
    let subs: &[u8] = b"0123 \"{}[],:-.e\\nx\xff\x00tN9";
    for (base, is_p) in [(&jp, true), (&jt, false)] {
        for i in 0..=base.len() {
            if !cx.mine() {
                continue;
            }
            let enc = |b: &[u8]| String::from_utf8_lossy(b).to_string();
            cx.case("json cut", || enc(&base[..i]), || json_case(&k, &o, &base[..i], is_p));
            cx.case("json cut", || enc(&base[i..]), || json_case(&k, &o, &base[i..], is_p));
            for c in subs {
                let mut b = base.to_vec();
                b.insert(i, *c);
                cx.case("json edit", || enc(&b), || json_case(&k, &o, &b, is_p));
                if i < base.len() {
                    let mut b = base.to_vec();
                    b[i] = *c;
                    cx.case("json edit", || enc(&b), || json_case(&k, &o, &b, is_p));
                }
            }
            if i < base.len() {
                let mut b = base.to_vec();
                b.remove(i);
                cx.case("json edit", || enc(&b), || json_case(&k, &o, &b, is_p));
            }
        }
    }
    for s in ["", " ", "null", "[]", "{}", "0", "\"\"", "{\"EDGES\":null}", "{\"EDGES\":{}}", "{\"EDGES\":[]}", "[{}]", "{\"EDGES\":{\"pieces\":[0,1,2]}}", "{\"EDGES\":{\"pieces\":null,\"orientation\":null}}", "\u{feff}{}", "{\"EDGES\":{\"pieces\":[0,1,2],\"orientation\":[0,0,0],\"orientationMod\":{}}}", "{\"EDGES\":{\"permutation\":[0,1,2],\"orientationDelta\":[0,0,-1]}}", "{\"EDGES\":{\"permutation\":[0,1,2.0],\"orientationDelta\":[0,0,0]}}"] {
        if cx.mine() {
            for is_p in [true, false] {
                cx.case("json bad", || s.into(), || {
                    let bad = if is_p { KPattern::try_from_json(&k, s.as_bytes()).is_err() } else { KTransformation::try_from_json(&k, s.as_bytes()).is_err() };
                    ensure(bad, || "accepted".into())
                });
            }
        }
    }
    // the default pattern of an accepted definition may itself be malformed
    if cx.mine() {
        cx.case("default pattern", || "short default pattern".into(), || {
            let j = r#"{"name":"short","orbits":[{"orbitName":"P","numPieces":2,"numOrientations":2}],"defaultPattern":{"P":{"pieces":[0],"orientation":[0]}},"moves":{}}"#;
            match KPuzzle::try_from_json(j.as_bytes()) {
                Err(_) => Ok(()),
                Ok(k) => panics(|| k.default_pattern()).map(|_| ()),
            }
        });
    }
    cx.sample(format!("{:?}", base_p()));
    cx.sample(String::from_utf8_lossy(&jt).to_string());
}
fn rp_value(p: &PD) -> std::collections::BTreeMap<String, serde_json::Value> {
    p.0.iter().map(|(n, p, o, m)| (n.clone(), serde_json::json!({"pieces": p, "orientation": o, "orientationMod": m}))).collect()
}
fn replay(_: &str, _: &str) -> Result<(), String> {
    Ok(())
}
