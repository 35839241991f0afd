//! C06: JSON conversions.
use super::c02::{amts, broad, dbg_alg, fams, narrow, prefixes};
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use cubing::alg::*;
use cubing::kpuzzle::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::HashMap;

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        level: "model_checking",
        rule: "All algs up to a size, all moves over families x prefixes x amounts, strings over an alphabet, all patterns and transformations of small layouts, every (orientation, modulus) of every orientation count, custom and built-in definitions: written by every JSON writer and read by every JSON reader. states = distinct values, transitions = conversions.",
        assumptions: &["serde_json itself is correct"],
        explore,
        replay,
        hang_s: 30,
        nshards: 8,
    }
}
/// Write with every writer, read with every reader; all readers must give equal results.
fn json_all<T: Serialize + DeserializeOwned>(x: &T) -> Result<Vec<T>, String> {
    let e = |e: serde_json::Error| format!("JSON: {}", e);
    let s = serde_json::to_string(x).map_err(e)?;
    let v = serde_json::to_vec(x).map_err(e)?;
    let val = serde_json::to_value(x).map_err(e)?;
    let pretty = serde_json::to_string_pretty(x).map_err(e)?;
    let mut w = vec![];
    serde_json::to_writer(&mut w, x).map_err(e)?;
    trans(9);
    trace(5);
    Ok(vec![
        serde_json::from_str(&s).map_err(e)?,
        serde_json::from_slice(&v).map_err(e)?,
        serde_json::from_value(val).map_err(e)?,
        serde_json::from_str(&pretty).map_err(e)?,
        serde_json::from_reader(&w[..]).map_err(e)?,
    ])
}
fn read_all<T: DeserializeOwned>(json: &str) -> Result<Vec<Option<T>>, String> {
    trans(4);
    trace(1);
    Ok(vec![
        serde_json::from_str(json).ok(),
        serde_json::from_slice(json.as_bytes()).ok(),
        serde_json::from_reader(json.as_bytes()).ok(),
        match serde_json::from_str::<serde_json::Value>(json) {
            Ok(v) => serde_json::from_value(v).ok(),
            Err(_) => None,
        },
    ])
}
fn alg(a: &RAlg) -> Result<(), String> {
    state_of(a);
    let x = to_alg(a);
    for y in json_all(&x)? {
        must("alg", norm(&from_alg(&y), false), norm(a, false))?;
    }
    if let Some(x) = share(a) {
        for y in json_all(&x)? {
            must("alg with shared parts", norm(&from_alg(&y), false), norm(a, false))?;
        }
    }
    Ok(())
}
fn mv_(m: &RMove) -> Result<(), String> {
    state_of(m);
    let x = to_mv(m);
    for y in json_all(&x)? {
        must("move", from_mv(&y), m.clone())?;
    }
    let q = to_q(m);
    for y in json_all(&q)? {
        must("quantum move", &y, &q)?;
    }
    let key: HashMap<Move, u8> = HashMap::from([(x.clone(), 7)]);
    for y in json_all(&key)? {
        ensure(y.len() == 1 && y.get(&x) == Some(&7), || format!("move as a JSON key: {:?}", y))?;
    }
    Ok(())
}
fn string(s: &str) -> Result<(), String> {
    // plain, and with every character escaped
    let esc: String = s.encode_utf16().map(|u| format!("\\u{:04x}", u)).collect();
    for j in [serde_json::to_string(s).unwrap(), format!("\"{}\"", esc), format!(" \n\"{}\" ", esc)] {
        let wa = rparse(s);
        for r in read_all::<Alg>(&j)? {
            must("alg from JSON", r.map(|a| from_alg(&a)), wa.clone())?;
        }
        let wm = rparse_move(s);
        for r in read_all::<Move>(&j)? {
            must("move from JSON", r.map(|a| from_mv(&a)), wm.clone())?;
        }
        let wq = rparse_quantum(s);
        for r in read_all::<QuantumMove>(&j)? {
            must("quantum move from JSON", r.map(|a| from_q(&a, 1)), wq.clone())?;
        }
        let o = format!("{{{}: 1}}", j);
        for r in read_all::<HashMap<Move, u8>>(&o)? {
            must("move as JSON key", r.map(|h| h.keys().map(from_mv).collect::<Vec<_>>()), wm.clone().map(|m| vec![m]))?;
        }
    }
    state_of(s);
    Ok(())
}
fn t_case(k: &KPuzzle, o: &[ROrbit], t: &RT) -> Result<(), String> {
    state_of(&(o, t));
    let x = t_make(k, o, t)?;
    let d = x.to_data();
    must("exported transformation", &d, &t_data(o, t))?;
    let y = KTransformation::try_from_data(k, &d).map_err(|e| e.to_string())?;
    ensure(y == x, || "import of exported data differs".into())?;
    let j = serde_json::to_vec(&d).map_err(|e| e.to_string())?;
    let y = KTransformation::try_from_json(k, &j).map_err(|e| e.to_string())?;
    ensure(y == x, || "import of exported JSON differs".into())?;
    for d2 in json_all(&d)? {
        must("data", &d2, &d)?;
    }
    let y = KTransformation::try_from_json(k, rt_json(o, t).as_bytes()).map_err(|e| e.to_string())?;
    ensure(y == x, || "import of hand-written JSON differs".into())?;
    // a clone and a rebuilt handle export the same
    must("exported clone", x.clone().to_data(), d)?;
    Ok(())
}
fn p_case(k: &KPuzzle, o: &[ROrbit], p: &RP) -> Result<(), String> {
    let c = p_canon(o, p);
    state_of(&(o, &c));
    let x = p_make(k, o, p)?;
    let d = x.to_data();
    // exact content (a modulus equal to the number of orientations may read as 0)
    ensure(d.len() == o.len(), || "number of exported orbits".into())?;
    for (i, ob) in o.iter().enumerate() {
        let e = d.get(&KPuzzleOrbitName(ob.name.clone())).ok_or("orbit missing in export")?;
        must("pieces", &e.pieces, &c[i].0)?;
        must("orientation", e.orientation.iter().map(|x| *x as usize).collect::<Vec<_>>(), c[i].1.clone())?;
        let ms = e.orientation_mod.clone().unwrap_or(vec![0; ob.np]);
        must(
            "moduli",
            ms.iter().map(|m| if *m as usize == ob.no { 0 } else { *m as usize }).collect::<Vec<_>>(),
            c[i].2.clone(),
        )?;
    }
    let y = KPattern::try_from_data(k, &d).map_err(|e| e.to_string())?;
    ensure(y == x, || "import of exported data differs".into())?;
    let j = serde_json::to_vec(&d).map_err(|e| e.to_string())?;
    let y = KPattern::try_from_json(k, &j).map_err(|e| e.to_string())?;
    ensure(y == x, || "import of exported JSON differs".into())?;
    for d2 in json_all(&d)? {
        must("data", &d2, &d)?;
    }
    let y = KPattern::try_from_json(k, rp_json(o, p).as_bytes()).map_err(|e| e.to_string())?;
    ensure(y == x, || "import of hand-written JSON differs".into())?;
    must("content of re-imported pattern", p_read(&y), c.clone())?;
    if p.iter().all(|q| q.2.iter().all(|m| *m == 0)) {
        let mut d3 = d.clone();
        for e in d3.values_mut() {
            e.orientation_mod = None;
        }
        for d4 in json_all(&d3)? {
            must("data without moduli", &d4, &d3)?;
            let y = KPattern::try_from_data(k, &d4).map_err(|e| e.to_string())?;
            ensure(y == x, || "pattern without moduli differs".into())?;
        }
    }
    Ok(())
}
fn def_eq(a: &KPuzzleDefinition, b: &KPuzzleDefinition) -> Result<(), String> {
    must("name", &a.name, &b.name)?;
    must("orbits", a.orbits.len(), b.orbits.len())?;
    for (x, y) in a.orbits.iter().zip(&b.orbits) {
        must("orbit", (&x.orbit_name, x.num_pieces, x.num_orientations), (&y.orbit_name, y.num_pieces, y.num_orientations))?;
    }
    must("default pattern", &a.default_pattern, &b.default_pattern)?;
    must("moves", &a.moves, &b.moves)?;
    must("derived moves", &a.derived_moves, &b.derived_moves)
}
fn def_case(json: &str, r: Option<&RPuz>) -> Result<(), String> {
    let d: KPuzzleDefinition = serde_json::from_str(json).map_err(|e| e.to_string())?;
    state_of(json);
    let k = KPuzzle::try_from_json(json.as_bytes()).map_err(|e| e.to_string())?;
    def_eq(&d, k.definition())?;
    if let Some(r) = r {
        must("name", &d.name, &r.name)?;
        must("number of moves", d.moves.len(), r.moves.len())?;
        for (m, t) in &r.moves {
            must("move definition", d.moves.get(&to_mv(m)), Some(&t_data(&r.orbits, t)))?;
        }
        must("number of derived moves", d.derived_moves.as_ref().map_or(0, |x| x.len()), r.derived.len())?;
        for (m, a) in &r.derived {
            must("derived move", d.derived_moves.as_ref().and_then(|x| x.get(&to_mv(m))).map(from_alg), Some(a.clone()))?;
        }
        for o in d.orbits.iter().zip(&r.orbits) {
            must("orbit", (o.0.orbit_name.0.as_str(), o.0.num_pieces as usize, o.0.num_orientations as usize), (o.1.name.as_str(), o.1.np, o.1.no))?;
        }
        must("orbit count", d.orbits.len(), r.orbits.len())?;
    }
    let (moves, dp): (Vec<Move>, KPattern) = (
        d.moves.keys().cloned().chain(d.derived_moves.iter().flat_map(|x| x.keys().cloned())).collect(),
        k.default_pattern(),
    );
    for d2 in json_all(&d)? {
        def_eq(&d2, &d)?;
        for k2 in [KPuzzle::try_new(d2), ] {
            let k2 = k2.map_err(|e| e.to_string())?;
            must("default pattern", p_read(&k2.default_pattern()), p_read(&dp))?;
            for m in &moves {
                for m in [m.clone(), m.invert()] {
                    let a = k.transformation_from_move(&m).map_err(|e| e.to_string())?;
                    let b = k2.transformation_from_move(&m).map_err(|e| e.to_string())?;
                    must("move on the reloaded puzzle", t_read(&b), t_read(&a))?;
                }
            }
        }
    }
    let s = serde_json::to_vec(k.definition()).map_err(|e| e.to_string())?;
    let k3 = KPuzzle::try_from_json(&s).map_err(|e| e.to_string())?;
    def_eq(k3.definition(), &d)?;
    let k4 = KPuzzle::try_from(serde_json::from_slice::<KPuzzleDefinition>(&s).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    def_eq(k4.definition(), &d)
}
fn explore(cx: &mut Cx) {
    let t = cx.thorough;
    for (leaves, am, n) in [(broad(), vec![1, -1, 2], if t { 3 } else { 2 }), (narrow(), vec![1, -1], if t { 4 } else { 3 })] {
        let g = Gen::new(leaves, am, n);
        for q in 0..=n {
            g.each(q, &mut |a| {
                if cx.mine() {
                    cx.case("alg", || dbg_alg(a), || alg(a));
                }
            });
        }
    }
    for f in fams() {
        for p in prefixes() {
            if cx.mine() && (t || f.len() < 12) {
                for a in amts() {
                    let m = RMove { pre: p.clone(), fam: f.clone(), amt: a };
                    if t || a.abs() < 4 || a.abs() > 1000000 {
                        cx.case("move", || dbg_alg(&vec![RN::M(m.clone())]), || mv_(&m));
                    }
                }
            }
        }
    }
    for n in 0..=if t { 5 } else { 4 } {
        strings(&["R", "2", "'", "+", "-", "/", "\n", "(", ")", "[", ",", "]", " "], n, &mut |s| {
            if cx.mine() {
                cx.case("string", || s.into(), || string(s));
            }
        });
    }
    for n in 0..=if t { 3 } else { 2 } {
        strings(super::c01::TOKENS, n, &mut |s| {
            if cx.mine() {
                cx.case("string", || s.into(), || string(s));
            }
        });
    }
    for c in (0..0x400u32).chain([0x2028, 0x1f600, 0xffff]) {
        let Some(c) = char::from_u32(c) else { continue };
        if cx.mine() {
            for s in [format!("// {}", c), format!("R{}", c), format!("{}", c)] {
                cx.case("string", || s.clone(), || string(&s));
            }
        }
    }
    // deep and long ones
    towers(&[0, 1, 2, 3, 4, 5, 6], &super::c02::leaf("R"), &super::c02::leaf("U2'"), &depths(if t { 300 } else { 130 }), &mut |s, a| {
        if cx.mine() {
            cx.case("tower", || s, || alg(&a));
        }
    });
    for b in 6..=if t { 18 } else { 16 } {
        for n in [(1usize << b) - 1, 1 << b, (1 << b) + 1] {
            for (head, unit, tail) in super::c01::LONG {
                if cx.mine() {
                    let s = format!("{}{}{}", head, unit.repeat((n - head.len().min(n)) / unit.len()), tail);
                    cx.case("lengths", || format!("{} {} {}", n, head, unit), || {
                        string(&s)?;
                        rparse(&s).map_or(Ok(()), |a| alg(&a))
                    });
                }
            }
        }
    }
    // wrong JSON types are refused
    for j in ["null", "true", "1", "-1.5", "[]", "[\"R\"]", "{}", "{\"R\":1}", "", "\"R", "R", "'R'", "[82]"] {
        if cx.mine() {
            cx.case("wrong type", || j.into(), || {
                let ok = read_all::<Alg>(j)?.iter().all(|x| x.is_none())
                    && read_all::<Move>(j)?.iter().all(|x| x.is_none())
                    && read_all::<QuantumMove>(j)?.iter().all(|x| x.is_none());
                ensure(ok, || format!("{:?} was accepted", j))
            });
        }
    }
    // patterns and transformations
    let layouts: Vec<Vec<(usize, usize)>> = vec![vec![], vec![(0, 3)], vec![(1, 12)], vec![(2, 4)], vec![(3, 2)], vec![(2, 2), (1, 6)], vec![(2, 3), (0, 1), (2, 1)], vec![(2, 6)], vec![(3, 3)]];
    for l in &layouts {
        let o = orb(l);
        let r = RPuz::new(PSpec { name: "layout", orbits: o.iter().map(|o| (o.name.as_str(), o.np, o.no)).collect(), default: None, moves: vec![], derived: vec![] });
        let k = match load(&r) {
            Ok(k) => k,
            Err(e) => return cx.violate("setup", format!("{:?}", l), e),
        };
        for x in all_t(&o) {
            if cx.mine() {
                cx.case("transformation", || rt_json(&o, &x), || t_case(&k, &o, &x));
            }
        }
        for x in all_p(&o, 3) {
            if cx.mine() {
                cx.case("pattern", || rp_json(&o, &x), || p_case(&k, &o, &x));
            }
        }
    }
    for no in 1..=107usize {
        let o = orb(&[(2, no), (1, 108 - no)]);
        let r = RPuz::new(PSpec { name: "n", orbits: o.iter().map(|o| (o.name.as_str(), o.np, o.no)).collect(), default: None, moves: vec![], derived: vec![] });
        if !cx.mine() {
            continue;
        }
        let k = match load(&r) {
            Ok(k) => k,
            Err(e) => return cx.violate("setup", format!("{}", no), e),
        };
        let mut oms = all_om(no);
        oms.extend((0..no).map(|x| (x, no)));
        for (x, m) in oms {
            for (y, my) in [(0, 0), (no - 1, 0), (0, 1), (x, m)] {
                let p: RP = vec![(vec![200, 1], vec![x, y], vec![m, my]), (vec![255], vec![107 - no], vec![0])];
                cx.case("pattern n", || rp_json(&o, &p), || p_case(&k, &o, &p));
            }
        }
        for d in 0..no {
            let x: RT = vec![(vec![1, 0], vec![d, no - 1 - d]), (vec![0], vec![107 - no])];
            cx.case("transformation n", || rt_json(&o, &x), || t_case(&k, &o, &x));
        }
    }
    // big orbits
    for np in [127usize, 128, 200, 254, 255] {
        if cx.mine() {
            let o = orb(&[(np, 3), (2, 2)]);
            let r = RPuz::new(PSpec { name: "big", orbits: o.iter().map(|o| (o.name.as_str(), o.np, o.no)).collect(), default: None, moves: vec![], derived: vec![] });
            cx.case("big", || np.to_string(), || {
                let k = load(&r)?;
                for s in 0..np {
                    let t: RT = vec![((0..np).map(|i| (i + s) % np).collect(), (0..np).map(|i| (i * s) % 3).collect()), (vec![0, 1], vec![1, 0])];
                    t_case(&k, &o, &t)?;
                }
                let p: RP = vec![((0..np).map(|i| (255 - i) as u8).collect(), (0..np).map(|i| i % 3).collect(), vec![0; np]), (vec![0, 0], vec![1, 0], vec![0, 1])];
                p_case(&k, &o, &p)
            });
        }
    }
    // definitions
    let sq = crate::zoo::sq();
    let tiny = crate::zoo::tiny();
    let odd = RPuz::new(PSpec {
        name: "odd \"name\" \u{e9}\n",
        orbits: vec![("a b", 2, 12), ("", 1, 107), ("Z", 0, 1), ("é", 3, 1)],
        default: Some(vec![(vec![7, 7], vec![2, 3], vec![3, 4]), (vec![0], vec![106], vec![0]), (vec![], vec![], vec![]), (vec![2, 2, 2], vec![0, 0, 0], vec![0, 1, 1])]),
        moves: vec![
            ("2-3Rw2'", vec![(vec![1, 0], vec![11, 3]), (vec![0], vec![106]), (vec![], vec![]), (vec![2, 0, 1], vec![0, 0, 0])]),
            ("R--", vec![(vec![0, 1], vec![1, 3]), (vec![0], vec![1]), (vec![], vec![]), (vec![0, 2, 1], vec![0, 0, 0])]),
            ("/", vec![(vec![1, 0], vec![1, 11]), (vec![0], vec![0]), (vec![], vec![]), (vec![0, 1, 2], vec![0, 0, 0])]),
        ],
        derived: vec![("UR5-", "[/: R--]2 // c\n."), ("_SLASH_2", "/ /")],
    });
    let minimal = RPuz::new(PSpec { name: "", orbits: vec![], default: None, moves: vec![], derived: vec![] });
    for r in [&sq, &tiny, &odd, &minimal] {
        if cx.mine() {
            let j = r.json();
            cx.case("definition", || j.clone(), || def_case(&j, Some(r)));
            let j2 = j.replace("{\"name\"", "{\"derivedMovesExtra\":null,\"name\"");
            cx.case("definition", || j2.clone(), || def_case(&j2, Some(r)));
            if r.derived.is_empty() {
                let j3 = j[..j.len() - 1].to_string() + ",\"derivedMoves\":null}";
                cx.case("definition", || j3.clone(), || def_case(&j3, Some(r)));
                let j3 = j[..j.len() - 1].to_string() + ",\"derivedMoves\":{}}";
                cx.case("definition", || j3.clone(), || def_case(&j3, Some(r)));
            }
        }
    }
    for (n, k) in [("3x3x3", cubing::puzzles::cube3x3x3_kpuzzle()), ("2x2x2", cubing::puzzles::cube2x2x2_kpuzzle())] {
        if cx.mine() {
            cx.case("built-in definition", || n.into(), || {
                let j = serde_json::to_string(k.definition()).map_err(|e| e.to_string())?;
                def_case(&j, None)
            });
        }
    }
    cx.sample(odd.json());
}
fn replay(kind: &str, case: &str) -> Result<(), String> {
    match kind {
        "string" => string(case),
        "definition" => def_case(case, None),
        _ => Ok(()),
    }
}
