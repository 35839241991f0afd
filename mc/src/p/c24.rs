//! C24: a puzzle presents exactly the definition it was given.
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use cubing::kpuzzle::*;
use std::collections::HashSet;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        level: "model_checking",
        rule: "All definitions with up to three (thorough: four) orbits from a menu of sizes and orientation counts, all pairs of orbit sizes, every orientation count with every orbit size, up to 300 orbits, all assignments of look-alike names, several default patterns, all combinations of moves and derived moves from a menu (also an empty and an absent table of derived moves): each loaded in every way there is, on the puzzle and on its clones. Orbits, their order and sizes, name lookups of declared and undeclared names, the definition, the default pattern and the identity are compared with what was given; every entry of every orbit is then written with a value of its own and all are read back. states = distinct definitions, transitions = lookups and entries written, traces = loads.",
        assumptions: &["orbit names within one definition are distinct"],
        explore,
        replay,
        hang_s: 60,
        nshards: 8,
    }
}
#[derive(Clone, Debug)]
struct Def {
    name: String,
    orbits: Vec<(String, usize, usize)>,
    fill: usize,
}
/// Default patterns: 0 solved, 1 reversed pieces with twists, 2 all alike with moduli, 3 pieces beyond the count.
fn fill(o: &[ROrbit], f: usize) -> RP {
    o.iter()
        .enumerate()
        .map(|(n, o)| {
            let ds = divisors(o.no);
            let mut r = (vec![], vec![], vec![]);
            for i in 0..o.np {
                let m = if f == 2 || f == 3 { ds[(i + n) % ds.len()] } else { 0 };
                let m = if m == o.no { 0 } else { m };
                let lim = if m == 0 { o.no } else { m };
                r.0.push(match f {
                    0 => i,
                    1 => o.np - 1 - i,
                    2 => n,
                    _ => 255 - (i * 7 + n) % 256,
                } as u8);
                r.1.push(if f == 0 { 0 } else { (i * 5 + n + f) % lim });
                r.2.push(m);
            }
            r
        })
        .collect()
}
fn look_alikes(names: &[String]) -> Vec<String> {
    let mut v: HashSet<String> = ["", " ", "O", "o0", "O0", "O00", "CORNERS", "EDGES", "\0"].iter().map(|s| s.to_string()).collect();
    for n in names {
        v.insert(n.to_lowercase());
        v.insert(n.to_uppercase());
        v.insert(format!("{} ", n));
        v.insert(format!(" {}", n));
        v.insert(format!("{}S", n));
        v.insert(format!("{0}{0}", n));
        let mut c = n.chars();
        c.next();
        v.insert(c.as_str().to_string());
        let mut c = n.chars();
        c.next_back();
        v.insert(c.as_str().to_string());
        v.insert(n.trim().to_string());
        v.insert(n.chars().rev().collect());
        // one character changed at the start, in the middle or at the end
        let cs: Vec<char> = n.chars().collect();
        for at in [0, cs.len() / 2, cs.len().saturating_sub(1)] {
            if at < cs.len() {
                let mut d = cs.clone();
                d[at] = if d[at] == 'Z' { 'Y' } else { 'Z' };
                v.insert(d.into_iter().collect());
            }
        }
    }
    let mut v: Vec<String> = v.into_iter().filter(|x| !names.contains(x)).collect();
    v.sort();
    v
}
fn presents(k: &KPuzzle, d: &Def, o: &[ROrbit], want: &RP, deep: bool) -> Result<(), String> {
    let shape = |x: &KPuzzleOrbitInfo| (x.name.0.clone(), x.num_pieces as usize, x.num_orientations as usize);
    must("orbits", k.orbit_info_iter().map(shape).collect::<Vec<_>>(), d.orbits.clone())?;
    must("number of orbits", k.orbit_info_iter().count(), d.orbits.len())?;
    must("ordered orbits", k.data.ordered_orbit_info.iter().map(shape).collect::<Vec<_>>(), d.orbits.clone())?;
    let names: Vec<String> = d.orbits.iter().map(|x| x.0.clone()).collect();
    for (n, ob) in d.orbits.iter().enumerate() {
        trans(1);
        let i = k.lookup_orbit(&KPuzzleOrbitName(ob.0.clone())).ok_or_else(|| format!("orbit {:?} is not found", ob.0))?;
        must("looked up", shape(i), ob.clone())?;
        must("looked up by &str", k.lookup_orbit(&ob.0.as_str().into()).map(shape), Some(ob.clone()))?;
        must("name", i.name.to_string(), ob.0.clone())?;
        let _ = n;
    }
    for x in look_alikes(&names) {
        trans(1);
        if let Some(i) = k.lookup_orbit(&KPuzzleOrbitName(x.clone())) {
            return Err(format!("looking up {:?} finds {:?}", x, i.name.0));
        }
    }
    let f = k.definition();
    must("puzzle name", &f.name, &d.name)?;
    must("defined orbits", f.orbits.iter().map(|x| (x.orbit_name.0.clone(), x.num_pieces as usize, x.num_orientations as usize)).collect::<Vec<_>>(), d.orbits.clone())?;
    must("defined default pattern", &f.default_pattern, &p_data(o, want))?;
    must("number of moves", f.moves.len(), 0)?;
    must("derived moves", f.derived_moves.as_ref().map_or(0, |x| x.len()), 0)?;
    let p = k.default_pattern();
    must("default pattern", p_read(&p), want.clone())?;
    must("default pattern again", p_read(&k.default_pattern()), want.clone())?;
    ensure(p == k.default_pattern(), || "two default patterns differ".into())?;
    let t = k.identity_transformation();
    must("identity", t_read(&t), rid(o))?;
    must("default pattern after the identity", p_read(&p.apply_transformation(&t)), want.clone())?;
    must("puzzle of the default pattern", p.kpuzzle().orbit_info_iter().map(shape).collect::<Vec<_>>(), d.orbits.clone())?;
    must("puzzle of the identity", t.kpuzzle().orbit_info_iter().map(shape).collect::<Vec<_>>(), d.orbits.clone())?;
    if !deep {
        return Ok(());
    }
    // Every entry gets a value of its own: no two may share storage. Handles by lookup and by iteration.
    for by_name in [false, true] {
        let mut q = p.clone();
        let mut u = t.clone();
        let (mut wq, mut wu) = (want.clone(), rid(o));
        for n in 0..o.len() {
            let n = if by_name { o.len() - 1 - n } else { n };
            let h = if by_name { k.lookup_orbit(&d.orbits[n].0.as_str().into()).ok_or("lookup")? } else { k.orbit_info_iter().nth(n).ok_or("iteration")? };
            for i in 0..o[n].np {
                trans(1);
                let v = ((n * 53 + i * 3 + by_name as usize) % 256) as u8;
                q.set_piece(h, i as u8, v);
                wq[n].0[i] = v;
                let w = (i + n + by_name as usize) % o[n].no;
                q.set_orientation_with_mod(h, i as u8, &OrientationWithMod { orientation: w as u8, orientation_mod: 0 });
                wq[n].1[i] = w;
                wq[n].2[i] = 0;
                let (to, tw) = (if by_name { o[n].np - 1 - i } else { (i + 1) % o[n].np }, (i * 2 + n + by_name as usize) % o[n].no);
                u.set_permutation_idx(h, i as u8, to as u8);
                u.set_orientation_delta(h, i as u8, tw as u8);
                wu[n].0[i] = to;
                wu[n].1[i] = tw;
            }
        }
        must("pattern with every entry written", p_read(&q), wq)?;
        must("transformation with every entry written", t_read(&u), wu)?;
        must("default pattern after writing to a copy", p_read(&k.default_pattern()), want.clone())?;
    }
    Ok(())
}
fn check(d: &Def, deep: bool) -> Result<(), String> {
    let o: Vec<ROrbit> = d.orbits.iter().map(|x| ROrbit { name: x.0.clone(), np: x.1, no: x.2 }).collect();
    let want = fill(&o, d.fill);
    let r = RPuz::new(PSpec { name: &d.name, orbits: d.orbits.iter().map(|x| (x.0.as_str(), x.1, x.2)).collect(), default: Some(want.clone()), moves: vec![], derived: vec![] });
    let j = r.json();
    state_of(&(&d.name, &d.orbits, d.fill));
    let def = || -> Result<KPuzzleDefinition, String> { serde_json::from_str(&j).map_err(|e| e.to_string()) };
    let e = |e: InvalidDefinitionError| format!("refused: {}", e);
    let a = KPuzzle::try_from_json(j.as_bytes()).map_err(e)?;
    presents(&a, d, &o, &want, deep)?;
    presents(&a.clone(), d, &o, &want, false)?;
    let b = KPuzzle::try_new(def()?).map_err(e)?;
    presents(&b, d, &o, &want, false)?;
    let shared = Arc::new(def()?);
    let c = KPuzzle::try_new(shared.clone()).map_err(e)?;
    presents(&c, d, &o, &want, false)?;
    drop(c);
    must("shared definition", &shared.name, &d.name)?;
    let c: KPuzzle = KPuzzle::try_from(def()?).map_err(e)?;
    let c2 = KPuzzle::from(&c);
    drop(c);
    presents(&c2, d, &o, &want, false)?;
    presents(&a, d, &o, &want, false)?;
    // Read through the values, when the puzzle itself is gone.
    let (p, t) = (a.default_pattern(), a.identity_transformation());
    drop(a);
    presents(p.kpuzzle(), d, &o, &want, false)?;
    presents(t.kpuzzle(), d, &o, &want, false)?;
    trace(7);
    Ok(())
}
/// Move tables: the definition reads back with exactly the moves and derived moves given.
const MT: [(&str, [u8; 2], [u8; 2]); 7] = [("R", [1, 0], [0, 1]), ("R2", [0, 1], [1, 1]), ("R'", [1, 0], [0, 2]), ("r", [0, 1], [0, 0]), ("2R", [1, 0], [0, 0]), ("1-2R", [0, 1], [2, 1]), ("/", [1, 0], [2, 2])];
const DT: [(&str, &str); 7] = [("X", "R"), ("X2", ""), ("Y", "X X2"), ("Y'", "[R, X]2 . // c\n/"), ("x", "(R)3'"), ("3X", "((((R))))"), ("R3", "R R2")];
/// `ms` and `ds` choose from the menus; `ds` none = absent, Some(0) = there and empty.
fn tables(ms: usize, ds: Option<usize>) -> Result<(), String> {
    state_of(&(ms, ds));
    let mv = |s: &str| s.parse::<cubing::alg::Move>().map_err(|e| e.description);
    let al = |s: &str| s.parse::<cubing::alg::Alg>().map_err(|e| e.description);
    let make = || -> Result<KPuzzleDefinition, String> {
        let mut moves = std::collections::HashMap::new();
        for (n, (m, p, o)) in MT.iter().enumerate() {
            if ms >> n & 1 == 1 {
                moves.insert(mv(m)?, [("P".into(), KTransformationOrbitData { permutation: p.to_vec(), orientation_delta: o.to_vec() })].into());
            }
        }
        let derived_moves = match ds {
            None => None,
            Some(ds) => {
                let mut d = std::collections::HashMap::new();
                for (n, (m, a)) in DT.iter().enumerate() {
                    if ds >> n & 1 == 1 {
                        d.insert(mv(m)?, al(a)?);
                    }
                }
                Some(d)
            }
        };
        Ok(KPuzzleDefinition { name: "tables".into(), orbits: vec![KPuzzleOrbitDefinition { orbit_name: "P".into(), num_pieces: 2, num_orientations: 3 }], default_pattern: [("P".into(), KPatternOrbitData { pieces: vec![0, 1], orientation: vec![0, 0], orientation_mod: None })].into(), moves, derived_moves })
    };
    let want = make()?;
    let same = |k: &KPuzzle| -> Result<(), String> {
        trans(1);
        let g = k.definition();
        must("moves", &g.moves, &want.moves)?;
        must("derived moves", &g.derived_moves, &want.derived_moves)?;
        must("moves read through the data", &k.data.definition.moves, &want.moves)?;
        let j = |d: &KPuzzleDefinition| serde_json::to_value(d).map_err(|e| e.to_string());
        must("definition as JSON", j(g)?, j(&want)?)
    };
    let e = |e: InvalidDefinitionError| format!("refused: {}", e);
    let json = serde_json::to_string(&want).map_err(|e| e.to_string())?;
    let by = KPuzzle::try_from_json(json.as_bytes()).map_err(e)?;
    same(&by)?;
    same(&KPuzzle::try_new(make()?).map_err(e)?)?;
    let shared = Arc::new(make()?);
    let k = KPuzzle::try_new(shared.clone()).map_err(e)?;
    same(&k)?;
    same(&k.clone())?;
    same(&KPuzzle::try_from(make()?).map_err(e)?)?;
    same(&KPuzzle::from(&by))?;
    let (p, t) = (k.default_pattern(), k.identity_transformation());
    drop(k);
    drop(by);
    same(p.kpuzzle())?;
    same(t.kpuzzle())?;
    // moves can be asked for without changing what is presented
    for (m, _, _) in MT {
        let _ = p.kpuzzle().transformation_from_move(&mv(m)?);
    }
    same(p.kpuzzle())?;
    must("the shared definition", &shared.derived_moves, &want.derived_moves)?;
    trace(8);
    Ok(())
}
const SETS: [[&str; 3]; 7] = [["A", "B", "C"], ["C", "B", "A"], ["A", "AA", "AAA"], ["a", "A", "Aa"], ["", " ", "\u{e9}"], ["EDGES", "EDGE", "CORNERS"], ["O1", "O0", "O10"]];
fn text(d: &Def) -> String {
    serde_json::to_string(&(&d.name, &d.orbits, d.fill)).unwrap()
}
fn explore(cx: &mut Cx) {
    let t = cx.thorough;
    let go = |cx: &mut Cx, kind: &str, d: Def, deep: bool| {
        if cx.mine() {
            cx.case(kind, || text(&d), || check(&d, deep));
        }
    };
    // all layouts
    let menu: Vec<(usize, usize)> = [0, 1, 2, 5].iter().flat_map(|p| [1, 2, 3, 12].iter().map(move |o| (*p, *o))).collect();
    for n in 0..=3 {
        seqs(menu.len(), n, &mut |ix| {
            for f in 0..4 {
                if n == 3 && !t && (ix.iter().sum::<usize>() + f) % 4 != 0 {
                    continue;
                }
                go(cx, "layout", Def { name: format!("layout {}", f), orbits: ix.iter().enumerate().map(|(i, k)| (format!("O{}", i), menu[*k].0, menu[*k].1)).collect(), fill: f }, true);
            }
        });
    }
    if t {
        let menu = [(0, 2), (1, 1), (2, 2), (3, 3), (4, 1), (255, 107), (7, 6)];
        for n in 4..=5 {
            seqs(menu.len(), n, &mut |ix| {
                for f in 0..4 {
                    go(cx, "layout", Def { name: "n".into(), orbits: ix.iter().enumerate().map(|(i, k)| (format!("O{}", i), menu[*k].0, menu[*k].1)).collect(), fill: f }, true);
                }
            });
        }
    }
    // all pairs of sizes
    for a in 0..256 {
        for b in 0..256 {
            if t || a < 6 || b < 6 || a > 250 || b > 250 || (a % 16 < 2 && b % 16 < 2) {
                go(cx, "two sizes", Def { name: "two".into(), orbits: vec![("P".into(), a, 3), ("Q".into(), b, 2)], fill: (a + b) % 4 }, true);
            }
        }
    }
    // every orientation count
    for no in 1..=107 {
        for np in [1, 2, 108, 255] {
            for f in 0..4 {
                go(cx, "orientations", Def { name: "no".into(), orbits: vec![("P".into(), np, no), ("Q".into(), 2, 108 - no)], fill: f }, true);
            }
        }
    }
    // many orbits
    for n in 0..=300 {
        for np in if n > 40 && !t { vec![1, 2] } else { vec![1, 2, 130, 255] } {
            go(cx, "many orbits", Def { name: "many".into(), orbits: (0..n).map(|i| (format!("O{}", i * 7 % 1009), (np + i * (np % 2)) % 256, 1 + i % 107)).collect(), fill: n % 4 }, n % 4 == 3 || n < 60);
        }
    }
    for ms in 0..1 << MT.len() {
        for ds in 0..=1usize << DT.len() {
            // Derived moves need R, R2 and / to be there.
            let ds = ds.checked_sub(1);
            if ds.unwrap_or(0) != 0 && (ms & 1 == 0 || ms & 64 == 0 || ms & 2 == 0) {
                continue;
            }
            if ds.unwrap_or(0) & 4 != 0 && ds.unwrap_or(0) & 3 != 3 {
                continue;
            }
            if ds.unwrap_or(0) & 8 != 0 && ds.unwrap_or(0) & 1 != 1 {
                continue;
            }
            if cx.mine() {
                cx.case("tables", || serde_json::to_string(&(ms, ds)).unwrap(), || tables(ms, ds));
            }
        }
    }
    // names
    for set in SETS {
        for p in perms(3) {
            for n in 1..=3 {
                for shape in [[(2, 3), (1, 2), (3, 1)], [(2, 2), (2, 2), (2, 2)]] {
                    for f in 0..4 {
                        go(cx, "names", Def { name: set[p[0]].into(), orbits: (0..n).map(|i| (set[p[i]].to_string(), shape[i].0, shape[i].1)).collect(), fill: f }, true);
                    }
                }
            }
        }
    }
    // long names that differ in one place
    for b in 3..=if t { 16 } else { 13 } {
        for len in [(1usize << b) - 1, 1 << b, (1 << b) + 1] {
            for at in [0, len / 2, len - 1] {
                for unit in ["x", "\u{e9}"] {
                    let name = |c: &str| format!("{}{}{}", unit.repeat(at), c, unit.repeat(len - 1 - at));
                    for (x, y, z) in [("A", "B", "C"), ("a", "A", "\u{c0}"), ("A", "", "AA")] {
                        go(cx, "long names", Def { name: name(x), orbits: vec![(name(x), 2, 3), (name(y), 3, 2), (name(z), 1, 4)], fill: b % 4 }, true);
                        go(cx, "long names", Def { name: name(x), orbits: vec![(name(y), 2, 3)], fill: b % 4 }, true);
                    }
                }
            }
        }
    }
    for name in ["", "3x3x3", "\u{1F9CA} \"quoted\" \\ \n", "a very long name that goes on and on and on and on and on and on and on and on and on and on"] {
        go(cx, "puzzle name", Def { name: name.into(), orbits: vec![("P".into(), 2, 2)], fill: 1 }, true);
    }
}
fn replay(kind: &str, case: &str) -> Result<(), String> {
    if kind == "tables" {
        let (ms, ds) = serde_json::from_str(case).map_err(|e| e.to_string())?;
        return tables(ms, ds);
    }
    let (name, orbits, fill): (String, Vec<(String, usize, usize)>, usize) = serde_json::from_str(case).map_err(|e| e.to_string())?;
    check(&Def { name, orbits, fill }, true)
}
