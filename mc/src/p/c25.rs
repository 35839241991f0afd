//! C25: separately loaded copies of a puzzle are interchangeable.
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use crate::zoo::*;
use cubing::kpuzzle::*;

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        level: "model_checking",
        rule: "For each puzzle (custom ones with no pieces, one piece, several orbits, orbits of equal size, 255 pieces, and the built-in cubes) three copies: the first, one loaded again from the same text, one from the first's own definition. All sequences up to a depth of the operations that combine two values (apply, compose, write into an existing value, buffers, moves, algs, compare), every operand taken from every copy in turn; every result must be the reference model's, equal to and hashing as the one obtained within one copy, and usable with any copy. states = distinct contents reached, transitions = operations, traces = sequences.",
        assumptions: &["copies have the same definition; orbit handles come from the value's own puzzle"],
        explore,
        replay,
        hang_s: 60,
        nshards: 8,
    }
}
struct Z {
    name: &'static str,
    o: Vec<ROrbit>,
    k: Vec<KPuzzle>,
    start: RP,
    moves: Vec<(&'static str, RT)>,
    /// pats[copy], ts[copy][move]
    pats: Vec<KPattern>,
    ts: Vec<Vec<KTransformation>>,
}
fn finish(name: &'static str, a: KPuzzle, b: KPuzzle, start: RP, moves: Vec<(&'static str, RT)>) -> Result<Z, String> {
    let o: Vec<ROrbit> = a.orbit_info_iter().map(|x| ROrbit { name: x.name.0.clone(), np: x.num_pieces as usize, no: x.num_orientations as usize }).collect();
    let s = serde_json::to_vec(a.definition()).map_err(|e| e.to_string())?;
    let c = KPuzzle::try_from_json(&s).map_err(|e| e.to_string())?;
    let k = vec![a, b, c];
    let pats = k.iter().map(|k| p_make(k, &o, &start)).collect::<Result<_, _>>()?;
    let ts = k
        .iter()
        .map(|k| {
            moves
                .iter()
                .map(|(m, w)| {
                    let t = k.transformation_from_move(&m.parse().map_err(|_| "move".to_string())?).map_err(|e| e.to_string())?;
                    must(m, t_read(&t), w.clone())?;
                    Ok(t)
                })
                .collect::<Result<Vec<_>, String>>()
        })
        .collect::<Result<_, _>>()?;
    Ok(Z { name, o, k, start, moves, pats, ts })
}
fn custom(name: &'static str, p: RPuz, ms: &[&'static str]) -> Result<Z, String> {
    let mut start = p.default.clone();
    if let Some(x) = start.iter_mut().find(|x| x.0.len() > 1) {
        x.0[1] = 0;
        x.2[0] = 1;
        x.1[0] = 0;
    }
    let moves = ms.iter().map(|m| (*m, p.mv(&rparse_move(m).unwrap()).unwrap())).collect();
    finish(name, load(&p)?, load(&p)?, p_canon(&p.orbits, &start), moves)
}
fn zoo() -> Result<Vec<Z>, String> {
    let mut v = vec![];
    v.push(custom("sq", sq(), &["/", "A", "E2"])?);
    v.push(custom("tiny", tiny(), &["A", "C"])?);
    v.push(custom("none", RPuz::new(PSpec { name: "none", orbits: vec![("P", 0, 4)], default: None, moves: vec![("A", vec![(vec![], vec![])])], derived: vec![] }), &["A", "A2"])?);
    v.push(custom("no orbits", RPuz::new(PSpec { name: "bare", orbits: vec![], default: None, moves: vec![("A", vec![])], derived: vec![] }), &["A"])?);
    // Orbits that are alike in size, with different moves and twists.
    let r3 = (vec![1, 2, 0], vec![1, 0, 2]);
    let id3 = (vec![0, 1, 2], vec![0, 0, 0]);
    let s3 = (vec![1, 0, 2], vec![0, 0, 1]);
    v.push(custom(
        "alike",
        RPuz::new(PSpec { name: "alike", orbits: vec![("P", 3, 3), ("PP", 3, 3), ("p", 3, 6)], default: None, moves: vec![("A", vec![id3.clone(), r3.clone(), s3.clone()]), ("D", vec![s3.clone(), id3.clone(), r3.clone()])], derived: vec![("B", "A D2'")] }),
        &["A", "B"],
    )?);
    v.push(custom("one", RPuz::new(PSpec { name: "one", orbits: vec![("P", 1, 107)], default: None, moves: vec![("A", vec![(vec![0], vec![5])])], derived: vec![("B", "A7")] }), &["A", "B"])?);
    let big: Vec<usize> = (0..255).map(|i| (i * 2) % 255).collect();
    v.push(custom(
        "big",
        RPuz::new(PSpec { name: "big", orbits: vec![("P", 255, 12), ("Q", 3, 1)], default: None, moves: vec![("A", vec![(big, (0..255).map(|i| i % 12).collect()), (vec![1, 2, 0], vec![0; 3])])], derived: vec![("B", "A2 A'")] }),
        &["A", "B"],
    )?);
    for (name, k) in [("3x3x3", cubing::puzzles::cube3x3x3_kpuzzle()), ("2x2x2", cubing::puzzles::cube2x2x2_kpuzzle())] {
        let b = KPuzzle::try_from_json(&serde_json::to_vec(k.definition()).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        let moves: Vec<&'static str> = vec!["R", "U2'", "x"];
        let ms = moves
            .into_iter()
            .map(|m| Ok((m, t_read(&k.transformation_from_move(&m.parse().map_err(|_| "parse")?).map_err(|e| e.to_string())?))))
            .collect::<Result<Vec<_>, String>>()?;
        v.push(finish(name, k.clone(), b, p_read(&k.default_pattern()), ms)?);
    }
    Ok(v)
}
/// One step: which move, which copy its operand is from, in which way.
#[derive(Clone, Copy, Debug)]
struct Step {
    m: usize,
    c: usize,
    how: usize,
}
const HOWS: usize = 5;
fn same_p(z: &Z, what: &str, got: &KPattern, want: &RP, own: &KPattern) -> Result<(), String> {
    must(what, p_read(got), want.clone())?;
    ensure(got == own && own == got, || format!("{}: not equal to the result within one copy", what))?;
    ensure(hash_of(got) == hash_of(own), || format!("{}: hashes differ", what))?;
    must("exported", got.to_data(), own.to_data())?;
    for k in &z.k {
        let q = KPattern::try_from_data(k, &got.to_data()).map_err(|e| e.to_string())?;
        ensure(q == *got, || format!("{}: differs when imported to a copy", what))?;
    }
    Ok(())
}
fn run(z: &Z, from: usize, steps: &[Step]) -> Result<(), String> {
    let mut p = z.pats[from].clone();
    let mut own = z.pats[0].clone();
    let mut want = z.start.clone();
    let mut buf = KPatternBuffer::from(p.clone());
    // the same on transformations
    let mut t = z.k[from].identity_transformation();
    let mut town = z.k[0].identity_transformation();
    let mut twant = rid(&z.o);
    let mut tbuf = KTransformationBuffer::from(t.clone());
    for s in steps {
        trans(1);
        let x = &z.ts[s.c][s.m];
        let before = (p_read(&p), t_read(&t), t_read(x));
        let m = z.moves[s.m].0;
        let mv: cubing::alg::Move = m.parse().map_err(|_| "parse")?;
        let (p2, t2) = match s.how {
            0 => (p.apply_transformation(x), t.apply_transformation(x)),
            1 => {
                // into a value of the copy the operand is from
                let mut q = z.pats[s.c].clone();
                p.apply_transformation_into(x, &mut q);
                let mut u = z.ts[s.c][0].clone();
                t.apply_transformation_into(x, &mut u);
                (q, u)
            }
            2 => {
                // into a value of the third copy
                let c = (s.c + 1) % 3;
                let mut q = z.pats[c].clone();
                p.apply_transformation_into(x, &mut q);
                let mut u = z.ts[c][0].clone();
                t.apply_transformation_into(x, &mut u);
                (q, u)
            }
            3 => {
                // undone and redone with operands of different copies
                let y = z.ts[(s.c + 2) % 3][s.m].invert();
                let q = p.apply_transformation(x);
                must("undone", p_read(&q.apply_transformation(&y)), before.0.clone())?;
                let u = t.apply_transformation(x);
                must("undone", t_read(&u.apply_transformation(&y)), before.1.clone())?;
                must("neutral", t_read(&x.apply_transformation(&y)), rid(&z.o))?;
                ensure(x.apply_transformation(&y) == z.k[s.c].identity_transformation(), || "neutral".into())?;
                (q, u)
            }
            _ => {
                // by the move, looked up on another copy
                let y = z.k[s.c].transformation_from_alg(&m.parse().map_err(|_| "parse")?).map_err(|e| e.to_string())?;
                (p.apply_move(&mv).map_err(|e| e.to_string())?, t.apply_transformation(&y))
            }
        };
        must("operands", (p_read(&p), t_read(&t), t_read(x)), before)?;
        p = p2;
        t = t2;
        buf.apply_transformation(x);
        tbuf.apply_transformation(x);
        own = own.apply_transformation(&z.ts[0][s.m]);
        town = town.apply_transformation(&z.ts[0][s.m]);
        want = rapply(&z.o, &want, &z.moves[s.m].1);
        twant = rcomp(&z.o, &twant, &z.moves[s.m].1);
        same_p(z, "pattern", &p, &want, &own)?;
        same_p(z, "buffer", buf.current(), &want, &own)?;
        must("transformation", t_read(&t), twant.clone())?;
        must("transformation buffer", t_read(tbuf.current()), twant.clone())?;
        ensure(t == town && *tbuf.current() == t && town == *tbuf.current(), || "transformations differ between copies".into())?;
        must("exported", t.to_data(), town.to_data())?;
        must("inverse", t_read(&t.invert()), rtinv(&z.o, &twant))?;
        must("all at once", p_read(&z.pats[s.c].apply_transformation(&t)), want.clone())?;
        ensure((p == z.pats[2]) == (want == z.start) && (z.pats[1] == p) == (want == z.start), || "comparison with the start".into())?;
        state_of(&(z.name, &want, &twant));
    }
    let fresh = KPatternBuffer::from(own);
    ensure(buf == fresh, || "buffers of different copies differ".into())?;
    let fresh = KTransformationBuffer::from(town);
    ensure(tbuf == fresh && fresh == tbuf, || "transformation buffers of different copies differ".into())?;
    trace(1);
    Ok(())
}
fn decode(z: &Z, ix: &[usize]) -> Vec<Step> {
    ix.iter().map(|i| Step { how: i % HOWS, c: i / HOWS % 3, m: i / HOWS / 3 % z.moves.len() }).collect()
}
fn explore(cx: &mut Cx) {
    let zoo = match guarded(zoo) {
        Ok(z) => z,
        Err(e) => return cx.violate("puzzles", String::new(), e),
    };
    for z in &zoo {
        let n = z.moves.len() * HOWS * 3;
        let deep = z.o.iter().map(|x| x.np).sum::<usize>() < 30;
        let depth = if deep { 3 } else { 2 } + (cx.thorough && !(deep && n > 40)) as usize;
        for len in 0..=depth {
            for from in 0..3 {
                seqs(n, len, &mut |ix| {
                    if len == 3 && !cx.thorough && !deep {
                        return;
                    }
                    if cx.mine() {
                        cx.case("copies", || format!("{} {} {:?}", z.name, from, ix), || run(z, from, &decode(z, ix)));
                    }
                });
            }
        }
    }
}
fn replay(_kind: &str, case: &str) -> Result<(), String> {
    for z in &zoo()? {
        if let Some(r) = case.strip_prefix(z.name).and_then(|r| r.strip_prefix(' ')) {
            let (from, ix) = r.split_once(' ').ok_or("case")?;
            let ix: Vec<usize> = serde_json::from_str(ix).map_err(|e| e.to_string())?;
            return run(z, from.parse().map_err(|_| "case")?, &decode(z, &ix));
        }
    }
    Err("no such puzzle".into())
}
