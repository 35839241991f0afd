//! C16: results depend on arguments only.
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use crate::zoo::*;
use cubing::alg::*;
use cubing::kpuzzle::*;

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        level: "model_checking",
        rule: "All sequences of operations up to a depth from a menu built to collide (puzzles with one name and different moves, living and short-lived, equal texts in different roles, failing and panicking calls, built-in puzzles), each sequence in a fresh forked process; every result must be the one the operation gives alone in a fresh process, arguments must be unchanged. Also every two operations in turn many times over, every short text parsed in one process with a probe after each, every operation many times in a row (beyond 65,536 for the quick ones) followed by every operation; 70,000 different moves, algs, puzzles, patterns and refusals in one process, in turn and at once; and all sequences of texts written into one buffer and of values written into one place in memory (algs, moves, patterns, transformations, their data, puzzles and definitions), each result against the reference model. states = distinct (operation, predecessor) outcomes, transitions = operations, traces = sequences.",
        assumptions: &["state could only be shared through the process; the sequence starts from a process in which the library did nothing but load the living puzzles"],
        explore,
        replay,
        hang_s: 200,
        nshards: 8,
    }
}
/// Three definitions with one name: two with one shape and different moves, one of another shape.
pub fn variant(v: usize) -> RPuz {
    let two = |p: Vec<usize>, d: Vec<usize>, q: Vec<usize>| vec![(p, d), (q, vec![0, 0])];
    match v {
        0 => RPuz::new(PSpec {
            name: "same",
            orbits: vec![("P", 4, 3), ("Q", 2, 1)],
            default: None,
            moves: vec![("A", two(cyc(4, &[&[0, 1, 2]]), vec![1, 0, 2, 0], vec![0, 1])), ("B", two(cyc(4, &[&[1, 3]]), vec![0, 0, 0, 1], vec![1, 0])), ("A++", two(cyc(4, &[&[0, 3]]), vec![0; 4], vec![0, 1]))],
            derived: vec![("C", "A B"), ("D2", "[A: C]2")],
        }),
        1 => RPuz::new(PSpec {
            name: "same",
            orbits: vec![("P", 4, 3), ("Q", 2, 1)],
            default: Some(vec![(vec![3, 2, 1, 0], vec![0, 1, 0, 2], vec![0, 0, 1, 0].iter().map(|x| x * 0).collect()), (vec![1, 1], vec![0, 0], vec![0, 0])]),
            moves: vec![("A", two(cyc(4, &[&[0, 2]]), vec![0, 1, 0, 0], vec![1, 0])), ("B", two(cyc(4, &[&[0, 1, 2, 3]]), vec![2, 0, 0, 0], vec![0, 1])), ("Z", two(cyc(4, &[&[0, 3]]), vec![1; 4], vec![0, 1])), ("A2'", two(cyc(4, &[]), vec![1; 4], vec![0, 1]))],
            derived: vec![("C", "A B"), ("D2", "(B A)3")],
        }),
        _ => RPuz::new(PSpec {
            name: "same",
            orbits: vec![("P", 3, 2)],
            default: None,
            moves: vec![("A", vec![(cyc(3, &[&[0, 1, 2]]), vec![0, 1, 1])]), ("B", vec![(cyc(3, &[&[0, 1]]), vec![1, 0, 0])])],
            derived: vec![("C", "B A"), ("D2", "C' A")],
        }),
    }
}
pub struct World {
    pub json: Vec<String>,
    pub k: Vec<KPuzzle>,
    pub p: Vec<KPattern>,
    pub t: Vec<KTransformation>,
}
pub fn world() -> Result<World, String> {
    let rp: Vec<RPuz> = (0..3).map(variant).collect();
    let json: Vec<String> = rp.iter().map(|p| p.json()).collect();
    let k = json.iter().map(|j| KPuzzle::try_from_json(j.as_bytes()).map_err(|e| e.description)).collect::<Result<Vec<_>, _>>()?;
    let mut p = vec![];
    let mut t = vec![];
    for (i, r) in rp.iter().enumerate() {
        p.push(p_make(&k[i], &r.orbits, &r.default)?);
        t.push(t_make(&k[i], &r.orbits, &r.moves[0].1)?);
    }
    Ok(World { json, k, p, t })
}
fn ts(t: &KTransformation) -> String {
    format!("{:?}", t_read(t))
}
fn psx(p: &KPattern) -> String {
    format!("{:?}", p_read(p))
}
fn alg(s: &str) -> String {
    match s.parse::<Alg>() {
        Ok(a) => {
            let i = a.invert();
            let j = serde_json::to_string(&a).unwrap_or_default();
            let b: Option<Alg> = serde_json::from_str(&j).ok();
            format!("{:?} | {} | {:?} | {} | {:?} | {}", from_alg(&a), a, from_alg(&i), i, b.map(|b| from_alg(&b)), a == i)
        }
        Err(e) => format!("E {}", e),
    }
}
fn mv_(s: &str) -> String {
    let q = s.parse::<QuantumMove>().map(|q| format!("{:?} {}", from_q(&q, 1), q)).unwrap_or("-".into());
    match s.parse::<Move>() {
        Ok(m) => format!("{:?} {} {:?} {} {}", from_mv(&m), m, from_mv(&m.invert()), m.invert(), q),
        Err(e) => format!("E {} {}", e, q),
    }
}
fn look(k: &KPuzzle) -> String {
    let mut s = String::new();
    for m in ["A", "A2'", "B", "C", "C'", "D2", "D2'", "Z", "A++", "A--"] {
        let m: Move = m.parse().unwrap();
        match k.transformation_from_move(&m) {
            Ok(t) => s += &ts(&t),
            Err(e) => s += &e.to_string(),
        }
        s.push(';');
    }
    s
}
fn eval(k: &KPuzzle, a: &str) -> String {
    let a: Alg = a.parse().unwrap();
    let c = a.clone();
    let s = match k.transformation_from_alg(&a) {
        Ok(t) => ts(&t) + &psx(&k.default_pattern().apply_transformation(&t)) + &ts(&t.invert()),
        Err(e) => e.to_string(),
    };
    assert!(a == c, "argument changed");
    s
}
const TEXTS: &[&str] = &[
    "R U2'", "R U2' ", "[R, U]2 (2-3Rw)'", "/ (1, -2)", "// c\nR", "(R", "R (", "R++ R3-", "(1, 2", "", "[R", "[R, U", "[R: U]2147483648", "((R)2 [U: (F)'])3",
    "(R2147483648)", "[R, (U]", "(((((((((((((((((((([[[[[[[[[[R,],],],],],],],],],]))))))))))))))))))))", "(0, 2147483648)", "R//", "[[R: U], F: (D)2]",
];
const MOVES: &[&str] = &["R2'", "2R", "1-2R'", "/", "R++", "R3+", "R+"];
pub fn nops() -> usize {
    34 + TEXTS.len() + MOVES.len()
}
pub fn op(w: &mut World, i: usize) -> String {
    if i >= 34 {
        let i = i - 34;
        return if i < TEXTS.len() { alg(TEXTS[i]) } else { mv_(MOVES[i - TEXTS.len()]) };
    }
    let three = |a: &str| eval(cubing::puzzles::cube3x3x3_kpuzzle(), a);
    let two = |a: &str| eval(cubing::puzzles::cube2x2x2_kpuzzle(), a);
    match i {
        // living puzzles
        0..=2 => look(&w.k[i]),
        // short-lived puzzles of the same definitions
        3..=5 => {
            let k = KPuzzle::try_from_json(w.json[i - 3].as_bytes()).unwrap();
            look(&k)
        }
        6..=8 => eval(&w.k[i - 6], "A C (B A')2' [A, B] D2"),
        9 => {
            let k = KPuzzle::try_from_json(w.json[1].as_bytes()).unwrap();
            eval(&k, "A C (B A')2' [A, B] D2")
        }
        10 => eval(&w.k[0], "A Z"),
        11 => eval(&w.k[1], "A Z"),
        12 => three("R U"),
        13 => two("R U"),
        14 => three("R Z"),
        15 => three("Rw M' [F: x2]3"),
        16 => two("L y' R++"),
        17..=19 => {
            let j = i - 17;
            let q = w.p[j].apply_transformation(&w.t[j]);
            let r = q.apply_move(&"B2".parse().unwrap()).unwrap();
            let s = r.apply_alg(&"A B".parse().unwrap()).unwrap();
            format!("{} {} {} {} {}", psx(&q), psx(&r), psx(&s), psx(&w.p[j]), hash_of(&q) == hash_of(&q.clone()))
        }
        20..=21 => {
            let j = i - 20;
            let u = w.t[j].apply_transformation(&w.t[j]).invert();
            let mut v = w.t[j].clone();
            u.apply_transformation_into(&w.t[j], &mut v);
            format!("{} {} {}", ts(&u), ts(&v), ts(&w.t[j]))
        }
        22 => {
            // patterns and transformations of puzzles of one shape
            let q = w.p[0].apply_transformation(&w.t[0]);
            let r = w.p[1].apply_transformation(&w.t[1]);
            format!("{} {} {}", q == r, w.t[0] == w.t[1], w.k[0].identity_transformation() == w.k[1].identity_transformation())
        }
        23 => format!("{}", panics(|| w.p[0].apply_transformation(&w.t[2])).is_err()),
        24 => {
            let o = &w.k[0].data.ordered_orbit_info[0];
            format!("{} {}", panics(|| w.p[0].get_piece(o, 200)).is_err(), panics(|| w.t[0].get_permutation_idx(o, 4)).is_err())
        }
        25 => {
            let mut c = w.p[0].clone();
            let o = w.k[0].data.ordered_orbit_info[0].name.clone();
            let o = w.k[0].lookup_orbit(&o).unwrap();
            c.set_piece(o, 0, 9);
            c.set_orientation_with_mod(o, 1, &OrientationWithMod { orientation: 2, orientation_mod: 0 });
            format!("{} {}", psx(&c), psx(&w.p[0]))
        }
        26 => {
            let mut b = KPatternBuffer::from(w.p[1].clone());
            for _ in 0..3 {
                b.apply_transformation(&w.t[1]);
            }
            let mut c = KTransformationBuffer::from(w.t[1].clone());
            c.apply_transformation(&w.t[1]);
            format!("{} {}", psx(b.current()), ts(c.current()))
        }
        27 => {
            // refused definitions with the same name
            let a = w.json[0].replace("\"C\":\"A B\"", "\"C\":\"A C\"");
            let b = w.json[0].replace("\"numOrientations\":3", "\"numOrientations\":0");
            let c = &w.json[0][..w.json[0].len() / 2];
            [a.as_str(), &b, c].iter().map(|j| KPuzzle::try_from_json(j.as_bytes()).is_err().to_string()).collect::<Vec<_>>().join(",")
        }
        28 => {
            let d = w.p[0].to_data();
            let q = KPattern::try_from_data(&w.k[1], &d).unwrap();
            let e = KPattern::try_from_data(&w.k[2], &d).is_ok();
            let d = w.t[1].to_data();
            let u = KTransformation::try_from_data(&w.k[0], &d).unwrap();
            format!("{} {} {} {}", psx(&q), e, ts(&u), KTransformation::try_from_data(&w.k[2], &d).is_err())
        }
        29 => {
            // replace the living puzzles by new ones of the same definitions
            for j in 0..3 {
                w.k[j] = KPuzzle::try_from_json(w.json[j].as_bytes()).unwrap();
            }
            "new".into()
        }
        30 => {
            // many puzzles at once
            let v: Vec<KPuzzle> = (0..40).map(|j| KPuzzle::try_from_json(w.json[j % 3].as_bytes()).unwrap()).collect();
            look(&v[37]) + &look(&v[5])
        }
        31 => {
            let a = to_alg(&[RN::G(vec![RN::M(mv("U_SQ_", 1)), RN::M(mv("D_SQ_", 2))], 1), RN::M(mv("_SLASH_", 1)), RN::G(vec![RN::K(vec![RN::M(mv("R", 1))], vec![])], 2)]);
            format!("{} {} {:?}", a, a.invert(), from_alg(&a.invert()))
        }
        32 => {
            let mut s = String::new();
            for v in [Alg::try_from("R2 U"), Alg::try_from("R2 U"), Alg::try_from("R2  U")] {
                s += &v.map(|a| a.to_string()).unwrap_or("E".into());
            }
            let mut a: Alg = "R2 U".parse().unwrap();
            a.nodes.reverse();
            s + &a.to_string() + &"R2 U".parse::<Alg>().unwrap().to_string()
        }
        _ => {
            // values of dropped puzzles
            let (p, t) = {
                let k = KPuzzle::try_from_json(w.json[2].as_bytes()).unwrap();
                (k.default_pattern(), k.transformation_from_move(&"C".parse().unwrap()).unwrap())
            };
            psx(&p.apply_transformation(&t)) + &psx(&p.apply_alg(&"A D2".parse().unwrap()).unwrap())
        }
    }
}
fn seq_ok(w: &mut World, want: &[String], ops: &[usize]) -> Result<(), String> {
    for (n, &o) in ops.iter().enumerate() {
        let got = op(w, o);
        if got != want[o] {
            return Err(format!("operation {} at step {}: got {} want {}", o, n, got, want[o]));
        }
    }
    Ok(())
}
fn forked(w: &World, want: &[String], ops: &[usize], pre: usize) -> Result<(), String> {
    let r = fork_out(|| {
        let mut w = World { json: w.json.clone(), k: w.k.clone(), p: w.p.clone(), t: w.t.clone() };
        let r = if pre > 0 {
            let first = ops[0];
            (0..pre).try_for_each(|_| seq_ok(&mut w, want, &[first])).and_then(|_| seq_ok(&mut w, want, &ops[1..]))
        } else {
            seq_ok(&mut w, want, ops)
        };
        match r {
            Ok(()) => vec![],
            Err(e) => e.into_bytes(),
        }
    });
    trans((ops.len() + pre) as u64);
    trace(1);
    match r {
        None => Err("the process died or panicked".into()),
        Some(v) if v.is_empty() => Ok(()),
        Some(v) => Err(String::from_utf8_lossy(&v).to_string()),
    }
}
/// One place in memory, written again and again: equal lengths, other contents.
const PLACES: &[&[&str]] = &[
    &["R", "U", "(", "/", ""],
    &["R2'", "U2'", "R3'", "R U", "(R)", "R2(", "2Rw"],
    &["R2 U' F D2", "R2 U' F D3", "L2 U' F D2", "R2 U' (D2)", "[R2: U', L", "[R2: U', ]", "R2 U' F D("],
    &["[R, U] (F B D')3 // one", "[R, U] (F B D')3 // two", "[R, D] (F B D')3 // one", "[R: U] (F B D')3 // one", "[R, U] (F B D')4 // one", "[R, U] (F B D'(3// one", "(1, 2) / (F D')3 // onE"],
    &["R U R' U' R' F R2 U' R' U' R U R' F' [R: (U D' F2 B)2] / (3, -3) R U2 Fw'", "R U R' U' R' F R2 U' R' U' R U R' F' [R: (U D' F2 B)3] / (3, -3) R U2 Fw'", "R U R' U' R' F R2 U' R' U' R U R' F' [R: (U D' F2 B)2] / (3, -3) R U3 Fw'", "L U R' U' R' F R2 U' R' U' R U R' F' [R: (U D' F2 B)2] / (3, -3) R U2 Fw'", "R U R' U' R' F R2 U' R' U' R U R' F' [R: (U D' F2 B)2] / (3, -3) R U2 Fw("],
];
fn in_text(buf: &mut [u8], s: &str, how: usize) -> Result<(), String> {
    if how == 3 {
        buf[0] = b'"';
        buf[1..1 + s.len()].copy_from_slice(s.as_bytes());
        buf[1 + s.len()] = b'"';
        let t = std::str::from_utf8(&buf[..s.len() + 2]).unwrap();
        let a = serde_json::from_str::<Alg>(t).ok().map(|a| from_alg(&a));
        return must(&format!("from JSON {}", t), a, rparse(s));
    }
    buf[..s.len()].copy_from_slice(s.as_bytes());
    let t = std::str::from_utf8(&buf[..s.len()]).unwrap();
    match how {
        0 => must(&format!("{:?} as an alg", t), t.parse::<Alg>().ok().map(|a| from_alg(&a)), rparse(t)),
        1 => must(&format!("{:?} as a move", t), t.parse::<Move>().ok().map(|a| from_mv(&a)), rparse_move(t)),
        _ => must(&format!("{:?} as a quantum move", t), t.parse::<QuantumMove>().ok().map(|a| from_q(&a, 1)), rparse_quantum(t)),
    }
}
/// Slots whose contents change in place, between uses.
struct Slots {
    a: Alg,
    m: Move,
    p: KPattern,
    t: KTransformation,
    out: KTransformation,
    pd: KPatternData,
    td: KTransformationData,
    k: KPuzzle,
    json: String,
}
const NSLOT: usize = 4;
fn in_slots(s: &mut Slots, rp: &[RPuz], w: &World, i: usize, v: usize) -> Result<(), String> {
    let z = &rp[0];
    let o = &z.orbits;
    let leaf = |f: &str, n: i64| RN::M(mv(f, n));
    let algs = [
        vec![leaf("A", 1), leaf("B", 2)],
        vec![leaf("A", 1), leaf("B", -1)],
        vec![leaf("B", 1), RN::G(vec![leaf("A", 1), leaf("B", 1)], 2)],
        vec![leaf("A", 3), RN::K(vec![leaf("A", 1)], vec![leaf("B", 1)])],
    ];
    let t1 = [z.moves[0].1.clone(), z.moves[1].1.clone(), rcomp(o, &z.moves[0].1, &z.moves[1].1), rid(o)];
    let p1: Vec<RP> = t1.iter().map(|t| rapply(o, &z.default, t)).collect();
    let info = &w.k[0].data.ordered_orbit_info;
    let set_p = |x: &mut KPattern| {
        for j in 0..o.len() {
            for c in 0..o[j].np {
                x.set_piece(&info[j], c as u8, p1[v][j].0[c]);
                x.set_orientation_with_mod(&info[j], c as u8, &OrientationWithMod { orientation: p1[v][j].1[c] as u8, orientation_mod: p1[v][j].2[c] as u8 });
            }
        }
    };
    let set_t = |x: &mut KTransformation| {
        for j in 0..o.len() {
            for c in 0..o[j].np {
                x.set_permutation_idx(&info[j], c as u8, t1[v][j].0[c] as u8);
                x.set_orientation_delta(&info[j], c as u8, t1[v][j].1[c] as u8);
            }
        }
    };
    match i {
        0 => {
            for (x, y) in s.a.nodes.iter_mut().zip(&algs[v]) {
                *x = to_node(y);
            }
            must("printed", rparse(&s.a.to_string()), Some(algs[v].clone()))?;
            must("inverted", from_alg(&s.a.invert()), rinv(&algs[v]))?;
            must("evaluated", w.k[0].transformation_from_alg(&s.a).ok().map(|t| t_read(&t)), z.alg(&algs[v]))?;
            must("equal", s.a == to_alg(&algs[v]), true)
        }
        1 => {
            let r = mv("A", [1, 2, -1, 5][v]);
            s.m.amount = r.amt as i32;
            for (k, z) in w.k.iter().zip(rp) {
                must("move", k.transformation_from_move(&s.m).ok().map(|t| t_read(&t)), z.mv(&r))?;
            }
            must("printed move", rparse_move(&s.m.to_string()), Some(r.clone()))?;
            must("inverted move", from_mv(&s.m.invert()), rinv_move(&r))?;
            must("applied move", w.p[0].apply_move(&s.m).ok().map(|p| p_read(&p)), z.mv(&r).map(|t| rapply(o, &z.default, &t)))
        }
        2 => {
            set_p(&mut s.p);
            must("pattern", p_read(&s.p), p1[v].clone())?;
            must("exported", p_read(&KPattern::try_from_data(&w.k[0], &s.p.to_data()).map_err(|e| e.to_string())?), p1[v].clone())?;
            must("applied", p_read(&s.p.apply_transformation(&w.t[0])), rapply(o, &p1[v], &t1[0]))?;
            let f = p_make(&w.k[0], o, &p1[v])?;
            must("equal and hash", (s.p == f, hash_of(&s.p) == hash_of(&f)), (true, true))
        }
        3 => {
            set_t(&mut s.t);
            must("transformation", t_read(&s.t), t1[v].clone())?;
            must("composed", t_read(&s.t.apply_transformation(&w.t[0])), rcomp(o, &t1[v], &t1[0]))?;
            must("composed after", t_read(&w.t[0].apply_transformation(&s.t)), rcomp(o, &t1[0], &t1[v]))?;
            s.t.apply_transformation_into(&s.t.clone(), &mut s.out);
            must("into", t_read(&s.out), rcomp(o, &t1[v], &t1[v]))?;
            must("inverted", t_read(&s.t.invert()), rtinv(o, &t1[v]))?;
            must("applied to", p_read(&w.p[0].apply_transformation(&s.t)), p1[v].clone())
        }
        4 => {
            for (j, b) in o.iter().enumerate() {
                let name = KPuzzleOrbitName(b.name.clone());
                let d = s.pd.get_mut(&name).ok_or("no orbit")?;
                for c in 0..b.np {
                    d.pieces[c] = p1[v][j].0[c];
                    d.orientation[c] = p1[v][j].1[c] as u8;
                }
                let d = s.td.get_mut(&name).ok_or("no orbit")?;
                for c in 0..b.np {
                    d.permutation[c] = t1[v][j].0[c] as u8;
                    d.orientation_delta[c] = t1[v][j].1[c] as u8;
                }
            }
            must("from data", KPattern::try_from_data(&w.k[0], &s.pd).ok().map(|p| p_read(&p)), Some(p1[v].clone()))?;
            must("from data", KTransformation::try_from_data(&w.k[0], &s.td).ok().map(|t| t_read(&t)), Some(t1[v].clone()))
        }
        5 => {
            // another puzzle in the same place
            let v = v % 3;
            s.k = KPuzzle::try_from_json(w.json[v].as_bytes()).map_err(|e| e.description)?;
            must("default", p_read(&s.k.default_pattern()), rp[v].default.clone())?;
            must("identity", t_read(&s.k.identity_transformation()), rid(&rp[v].orbits))?;
            must("alg", s.k.transformation_from_alg(&to_alg(&algs[2])).ok().map(|t| t_read(&t)), rp[v].alg(&algs[2]))
        }
        _ => {
            // another definition in the same bytes
            s.json.clear();
            let at = w.json[0].find("\"orientationDelta\":[1, 0, 2, 0]").ok_or("no such definition")?;
            s.json += &w.json[0];
            s.json.replace_range(at + 20..at + 21, ["1", "2", "0", "x"][v]);
            let want = (v < 3).then(|| {
                let mut t = z.moves[0].1.clone();
                t[0].1[0] = [1, 2, 0][v];
                t
            });
            let got = KPuzzle::try_from_json(s.json.as_bytes()).ok().map(|k| k.transformation_from_move(&to_mv(&mv("A", 1))).map(|t| t_read(&t)).map_err(|e| e.to_string())).transpose()?;
            must("move of the definition", got, want)
        }
    }
}
fn in_place(cx: &mut Cx, w: &World) {
    let rp: Vec<RPuz> = (0..3).map(variant).collect();
    let depth = if cx.thorough { 4 } else { 3 };
    for (c, class) in PLACES.iter().enumerate() {
        for first in 0..class.len() * 4 {
            if !cx.mine() {
                continue;
            }
            let mut count = 0u64;
            cx.case("texts in one place", || format!("{} {}", c, first), || {
                // one process for all sequences that start alike, and one buffer
                let out = fork_out(|| {
                    let mut buf = vec![b' '; 200];
                    let mut bad = None;
                    seqs(class.len() * 4, depth - 1, &mut |rest| {
                        if bad.is_some() {
                            return;
                        }
                        for x in std::iter::once(&first).chain(rest) {
                            if let Err(e) = in_text(&mut buf, class[x / 4], x % 4) {
                                bad = Some(format!("{} then {:?}: {}", first, rest, e));
                                return;
                            }
                        }
                    });
                    bad.unwrap_or_default().into_bytes()
                });
                count = (class.len() as u64 * 4).pow(depth as u32 - 1);
                state_of(&("text", c, first));
                trans(count * depth as u64);
                trace(count);
                match out {
                    None => Err("the process died or panicked".into()),
                    Some(v) if v.is_empty() => Ok(()),
                    Some(v) => Err(String::from_utf8_lossy(&v).to_string()),
                }
            });
            cx.count("sequences in one place", count);
        }
    }
    let steps = 7 * NSLOT;
    for first in 0..steps {
        if !cx.mine() {
            continue;
        }
        cx.case("values in one place", || format!("{}", first), || {
            let out = fork_out(|| {
                let fresh = || -> Result<Slots, String> {
                    let z = &rp[0];
                    Ok(Slots {
                        a: to_alg(&[RN::M(mv("A", 1)), RN::M(mv("A", 1))]),
                        m: to_mv(&mv("A", 3)),
                        p: w.p[0].clone(),
                        t: w.t[0].clone(),
                        out: w.t[0].clone(),
                        pd: p_data(&z.orbits, &z.default),
                        td: t_data(&z.orbits, &z.moves[1].1),
                        k: w.k[0].clone(),
                        json: String::with_capacity(w.json[0].len()),
                    })
                };
                let mut s = match fresh() {
                    Ok(s) => s,
                    Err(e) => return e.into_bytes(),
                };
                let mut bad = None;
                seqs(steps, depth - 1, &mut |rest| {
                    if bad.is_some() {
                        return;
                    }
                    for x in std::iter::once(&first).chain(rest) {
                        if let Err(e) = in_slots(&mut s, &rp, w, x / NSLOT, x % NSLOT) {
                            bad = Some(format!("{} then {:?}: {}", first, rest, e));
                            return;
                        }
                    }
                });
                bad.unwrap_or_default().into_bytes()
            });
            let count = (steps as u64).pow(depth as u32 - 1);
            state_of(&("slot", first));
            trans(count * depth as u64);
            trace(count);
            match out {
                None => Err("the process died or panicked".into()),
                Some(v) if v.is_empty() => Ok(()),
                Some(v) => Err(String::from_utf8_lossy(&v).to_string()),
            }
        });
    }
}
/// The n-th family: distinct for distinct n, letters only.
fn family(mut n: usize) -> String {
    let mut s = String::from("F");
    for _ in 0..4 {
        s.push((b'a' + (n % 26) as u8) as char);
        n /= 26;
    }
    s
}
fn tiny(n: usize) -> (String, RPuz) {
    let f = family(n);
    let z = RPuz::new(PSpec {
        name: "many",
        orbits: vec![("P", 3, 2 + n % 3)],
        default: None,
        moves: vec![(&f, vec![(cyc(3, if n % 2 == 0 { &[&[0, 1, 2]] } else { &[&[0, 2]] }), vec![1, 0, n % 2])]), ("A", vec![(cyc(3, if n % 5 == 0 { &[&[0, 1]] } else { &[&[1, 2]] }), vec![0, 1, 1])])],
        derived: vec![("C", if n % 7 == 0 { "A2" } else { "A'" })],
    });
    (f, z)
}
fn tiny_ok(n: usize, k: &KPuzzle) -> Result<(), String> {
    let (f, z) = tiny(n);
    for m in [mv(&f, 1), mv("A", 1), mv("C", 1), mv(&family(n + 1), 1)] {
        must("move", k.transformation_from_move(&to_mv(&m)).ok().map(|t| t_read(&t)), z.mv(&m))?;
    }
    Ok(())
}
/// Great numbers of different things, one after another and all at once.
fn numbers(what: usize, n: usize) -> Result<(), String> {
    match what {
        0 => {
            // moves and families
            let mut v = vec![];
            for i in 0..n {
                let s = format!("{}{}", family(i), 2 + i % 7);
                let m: Move = s.parse().map_err(|_| "refused")?;
                let q: QuantumMove = family(i).parse().map_err(|_| "refused")?;
                v.push((m, q));
            }
            for (i, (m, q)) in v.iter().enumerate() {
                must("move", (from_mv(m), m.to_string(), q.to_string()), (mv(&family(i), 2 + i as i64 % 7), format!("{}{}", family(i), 2 + i % 7), family(i)))?;
                let j = (i + 65536) % n;
                must("equal", (*q == v[j].1, *m == v[j].0, m.invert() == v[j].0.invert()), (i == j, i == j, i == j))?;
            }
        }
        1 => {
            // algs
            let s = |i: usize| format!("[{}, R{}] (U D{})2 // {}", family(i), i + 2, i % 5 + 2, i);
            let mut v: Vec<Alg> = vec![];
            for i in 0..n {
                v.push(s(i).parse().map_err(|_| "refused")?);
            }
            for (i, a) in v.iter().enumerate() {
                must("alg", a.to_string(), s(i))?;
                must("inverse", Some(from_alg(&a.invert())), rparse(&s(i)).map(|a| rinv(&a)))?;
                let j = (i + 65536) % n;
                must("equal", *a == v[j], i == j)?;
            }
        }
        2 => {
            // puzzles one after another, one living all the time
            let first = load(&tiny(0).1)?;
            for i in 0..n {
                tiny_ok(i, &load(&tiny(i).1)?)?;
                if i % 64 == 0 {
                    tiny_ok(0, &first)?;
                }
            }
        }
        3 => {
            // puzzles at once
            let n = n / 50;
            let v = (0..n).map(|i| load(&tiny(i).1)).collect::<Result<Vec<_>, _>>()?;
            for (i, k) in v.iter().enumerate() {
                tiny_ok(i, k)?;
            }
        }
        4 => {
            // values at once
            let z = variant(0);
            let k = load(&z)?;
            let o = &k.data.ordered_orbit_info[0];
            let (mut v, mut w) = (vec![], vec![]);
            for i in 0..n {
                let mut p = k.default_pattern();
                let mut t = k.identity_transformation();
                for c in 0..4 {
                    p.set_piece(o, c, (i >> (8 * c)) as u8);
                    t.set_orientation_delta(o, c, ((i / 3usize.pow(c as u32)) % 3) as u8);
                }
                v.push(p);
                w.push(t);
            }
            for (i, (p, t)) in v.iter().zip(&w).enumerate() {
                for c in 0..4 {
                    must("piece", p.get_piece(o, c), (i >> (8 * c)) as u8)?;
                    must("delta", t.get_orientation_delta(o, c), ((i / 3usize.pow(c as u32)) % 3) as u8)?;
                }
                let j = (i + 65536) % n;
                must("equal", (*p == v[j], *t == w[j]), (i == j, i % 81 == j % 81))?;
            }
        }
        5 => {
            // every short family, and puzzles whose orbits and moves have every short name
            let abc: Vec<char> = ('A'..='Z').chain('a'..='z').chain(['_']).collect();
            let mut i = 0;
            for len in 1..=3 {
                let mut bad = None;
                seqs(abc.len(), len, &mut |x| {
                    if bad.is_some() {
                        return;
                    }
                    let f: String = x.iter().map(|c| abc[*c]).collect();
                    i += 1;
                    let r = (|| -> Result<(), String> {
                        must("quantum move", f.parse::<QuantumMove>().ok().map(|q| (from_q(&q, 1), q.to_string())), rparse_quantum(&f).map(|q| (q, f.clone())))?;
                        let m = format!("{}2'", f);
                        must("move", m.parse::<Move>().ok().map(|m| (from_mv(&m), m.to_string())), rparse_move(&m).map(|q| (q, m.clone())))?;
                        let a = format!("{} (R {}2)", f, f);
                        must("alg", a.parse::<Alg>().ok().map(|a| (from_alg(&a), a.to_string())), rparse(&a).map(|q| (q, a.clone())))?;
                        if len < 3 {
                            let at = |m: &str, n: usize| -> (String, Vec<(Vec<usize>, Vec<usize>)>) { (m.to_string(), vec![(cyc(3, if n % 2 == 0 { &[&[0, 1, 2]] } else { &[&[0, 2]] }), vec![1, 0, n % 2])]) };
                            let (a, b) = (at(&f, i), at("Ab_", i / 2));
                            let z = RPuz::new(PSpec { name: "short", orbits: vec![(&f, 3, 2 + i % 3)], default: None, moves: vec![(&a.0, a.1), (&b.0, b.1)], derived: vec![] });
                            let k = load(&z)?;
                            for m in [mv(&f, 1), mv("Ab_", -1), mv("BC_", 1)] {
                                must("move", k.transformation_from_move(&to_mv(&m)).ok().map(|t| t_read(&t)), z.mv(&m))?;
                            }
                            must("orbit", (k.lookup_orbit(&f.as_str().into()).is_some(), k.lookup_orbit(&"BC_".into()).is_some()), (true, false))?;
                        }
                        Ok(())
                    })();
                    if let Err(e) = r {
                        bad = Some(format!("{}: {}", f, e));
                    }
                });
                if let Some(e) = bad {
                    return Err(e);
                }
            }
        }
        _ => {
            // refusals
            let z = variant(0);
            let k = load(&z)?;
            let json = z.json();
            for i in 0..n {
                ensure(k.transformation_from_move(&to_mv(&mv(&family(i), 1))).is_err(), || format!("{} exists", family(i)))?;
                ensure(format!("({} R", family(i)).parse::<Alg>().is_err(), || "parsed".into())?;
                if i % 16 == 0 {
                    ensure(KPuzzle::try_from_json(json.replace("A B", &family(i)).as_bytes()).is_err(), || "loaded".into())?;
                    ensure(KPattern::try_from_json(&k, format!("{{\"{}\":1}}", i).as_bytes()).is_err(), || "a pattern".into())?;
                }
                if i % 64 == 0 {
                    must("move", k.transformation_from_move(&to_mv(&mv("C", 1))).ok().map(|t| t_read(&t)), z.mv(&mv("C", 1)))?;
                }
            }
        }
    }
    Ok(())
}
fn explore(cx: &mut Cx) {
    let w = match guarded(world) {
        Ok(w) => w,
        Err(e) => return cx.violate("world", String::new(), e),
    };
    in_place(cx, &w);
    let n = nops();
    let mut want = vec![];
    for i in 0..n {
        let r = fork_out(|| {
            let mut w = World { json: w.json.clone(), k: w.k.clone(), p: w.p.clone(), t: w.t.clone() };
            op(&mut w, i).into_bytes()
        });
        match r {
            Some(v) => want.push(String::from_utf8(v).unwrap()),
            None => return cx.violate("alone", format!("{}", i), "the operation fails alone in a fresh process".into()),
        }
    }
    let depth = if cx.thorough { 4 } else { 3 };
    for len in 1..=depth {
        // the deepest level keeps to the operations that can collide
        seqs(if len == 4 { 34 } else { n }, len, &mut |ops| {
            if cx.mine() {
                cx.case("sequence", || format!("{:?}", ops), || {
                    if len > 1 {
                        state_of(&(ops[len - 2], ops[len - 1], &want[ops[len - 1]]));
                    } else {
                        state_of(&(ops[0], &want[ops[0]]));
                    }
                    forked(&w, &want, ops, 0)
                });
            }
        });
    }
    // two operations in turn, many times: nothing may add up
    let t = cx.thorough;
    for a in 0..n {
        for b in 0..n {
            if !cx.mine() {
                continue;
            }
            let slow = |x: &usize| (3..=5).contains(x) || [9, 27, 29, 30, 33].contains(x);
            let heavy = [a, b].iter().any(slow);
            let reps = match (t, heavy, a >= 34 && b >= 34) {
                (false, true, _) => 60,
                (false, false, false) => 700,
                (false, false, true) => 1100,
                (true, true, _) => 400,
                (true, false, false) => 4_000,
                (true, false, true) => 70_000,
            };
            cx.case("in turn", || format!("{} x {} {}", reps, a, b), || {
                let ops: Vec<usize> = (0..2 * reps).map(|i| if i % 2 == 0 { a } else { b }).collect();
                state_of(&(a, b, "in turn"));
                forked(&w, &want, &ops, 0)
            });
        }
    }
    // every short text parsed in one process, the same probes after each
    let texts: Vec<Vec<String>> = (0..8)
        .map(|part| {
            let (mut v, mut i) = (vec![], 0);
            for len in 0..=if t { 4 } else { 3 } {
                strings(super::c01::FULL, len, &mut |s| {
                    if i % 8 == part {
                        v.push(s.to_string());
                    }
                    i += 1;
                });
            }
            v
        })
        .collect();
    for part in 0..8 {
        for probe in [36usize, 47, 50] {
            if cx.mine() {
                cx.case("parse history", || format!("{} {}", part, probe), || {
                    let r = fork_out(|| {
                        let mut w = World { json: w.json.clone(), k: w.k.clone(), p: w.p.clone(), t: w.t.clone() };
                        for round in 0..2 {
                            for s in &texts[part] {
                                if s.parse::<Alg>().ok().map(|a| from_alg(&a)) != rparse(s) {
                                    return format!("round {}: {:?} parsed differently", round, s).into_bytes();
                                }
                                if op(&mut w, probe) != want[probe] {
                                    return format!("round {}: operation {} after parsing {:?}", round, probe, s).into_bytes();
                                }
                            }
                        }
                        vec![]
                    });
                    trans(4 * texts[part].len() as u64);
                    trace(1);
                    match r {
                        None => Err("the process died or panicked".into()),
                        Some(v) if v.is_empty() => Ok(()),
                        Some(v) => Err(String::from_utf8_lossy(&v).to_string()),
                    }
                });
            }
        }
    }
    for what in 0..7 {
        if cx.mine() {
            let n = if t { 300_000 } else { 70_000 };
            cx.case("great numbers", || format!("{} of kind {}", n, what), || {
                trans(n as u64);
                trace(1);
                match fork_out(|| numbers(what, n).err().unwrap_or_default().into_bytes()) {
                    None => Err("the process died or panicked".into()),
                    Some(v) if v.is_empty() => Ok(()),
                    Some(v) => Err(String::from_utf8_lossy(&v).to_string()),
                }
            });
        }
    }
    // many times the same operation, then every other one
    for a in 0..n {
        if !cx.mine() {
            continue;
        }
        let mut ops = vec![a];
        ops.extend((0..n).filter(|x| *x != a));
        ops.push(a);
        // beyond 65,536 where an operation takes microseconds
        let reps = match (t, [29, 30].contains(&a), (3..=5).contains(&a) || (9..34).contains(&a)) {
            (false, true, _) => 100,
            (false, _, true) => 2_000,
            (true, true, _) => 3_500,
            _ => 70_000,
        };
        cx.case("repeated", || format!("{} x {}", reps, a), || forked(&w, &want, &ops, reps));
    }
}
fn replay(_kind: &str, _case: &str) -> Result<(), String> {
    Ok(())
}
