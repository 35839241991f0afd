//! C13: memory safety of patterns and transformations, observed through a guarding allocator.
use crate::bind::*;
use crate::engine::*;
use crate::galloc;
use crate::gen::*;
use crate::refm::*;
use cubing::alg::*;
use cubing::kpuzzle::*;
use std::hash::{Hash, Hasher};

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        level: "model_checking",
        rule: "All operation sequences up to a depth over a pool of two patterns, two transformations and one puzzle handle, on several puzzle shapes (including orbits without pieces, no orbits, 255 pieces, twist-only); every sequence runs under two memory fill patterns in an allocator with guard zones, quarantine, layout matching and live-block accounting. The digests of the two runs must agree (a difference means foreign or uninitialized memory was read), no allocator rule may be broken, and no block may stay allocated. Positions and values that do not fit must be refused. All pairs of incompatible shapes in every combining operation must be refused. states = distinct digests, transitions = operations, traces = sequences.",
        assumptions: &["a read of foreign memory matters when it changes a result or an address", "orbit handles come from the value's own puzzle"],
        explore,
        replay,
        hang_s: 60,
        nshards: 8,
    }
}
struct Dig(std::collections::hash_map::DefaultHasher, u32);
impl Dig {
    fn add<T: Hash + ?Sized>(&mut self, t: &T) {
        t.hash(&mut self.0)
    }
}
fn puz(name: &str, o: &[(usize, usize)], mv: Option<RT>) -> RPuz {
    let o = orb(o);
    RPuz::new(PSpec {
        name,
        orbits: o.iter().map(|x| (x.name.as_str(), x.np, x.no)).collect(),
        default: None,
        moves: match &mv {
            Some(t) => vec![("A", t.clone()), ("B", rid(&o))],
            None => vec![("A", rid(&o)), ("B", rid(&o))],
        },
        derived: vec![("C", "[A, B] A2'")],
    })
}
fn rot(o: &[(usize, usize)]) -> RT {
    o.iter().map(|&(p, n)| ((0..p).map(|i| (i + 1) % p).collect(), (0..p).map(|i| i % n).collect())).collect()
}
fn shapes() -> Vec<(&'static str, RPuz)> {
    let mk = |n: &'static str, o: &[(usize, usize)]| (n, puz(n, o, Some(rot(o))));
    vec![
        mk("3x2", &[(3, 2)]),
        mk("2x3+0x2+1x4", &[(2, 3), (0, 2), (1, 4)]),
        mk("no orbits", &[]),
        mk("0x1", &[(0, 1)]),
        mk("255x107", &[(255, 107)]),
        mk("1x1", &[(1, 1)]),
        mk("4x2+3x3+2x1", &[(4, 2), (3, 3), (2, 1)]),
    ]
}
/// Digest of a pattern through everything that reads it.
fn dig_p(d: &mut Dig, p: &KPattern) {
    for o in p.kpuzzle().orbit_info_iter() {
        let n = o.num_pieces.min(6);
        for i in (0..n).chain((n..o.num_pieces).rev().take(2)) {
            let w = p.get_orientation_with_mod(o, i);
            d.add(&(p.get_piece(o, i), w.orientation, w.orientation_mod));
        }
    }
    d.add(p);
}
fn dig_t(d: &mut Dig, t: &KTransformation) {
    for o in t.kpuzzle().orbit_info_iter() {
        let n = o.num_pieces.min(6);
        for i in (0..n).chain((n..o.num_pieces).rev().take(2)) {
            d.add(&(t.get_permutation_idx(o, i), t.get_orientation_delta(o, i)));
        }
    }
}
fn sorted<T: std::fmt::Debug>(m: &std::collections::HashMap<KPuzzleOrbitName, T>) -> Vec<String> {
    let mut v: Vec<String> = m.iter().map(|(k, v)| format!("{} {:?}", k, v)).collect();
    v.sort();
    v
}
struct Pool {
    k: KPuzzle,
    p: [KPattern; 2],
    t: [KTransformation; 2],
}
const NOPS: usize = 30;
fn refuse<T>(d: &mut Dig, f: impl FnOnce() -> T) {
    // Positions outside the orbit and values that do not fit it are refused.
    d.1 += panics(f).is_ok() as u32;
}
fn op(s: &mut Pool, op: usize, d: &mut Dig, shapes_json: &str) {
    trans(1);
    let k = s.k.clone();
    let mid = |o: &KPuzzleOrbitInfo| o.num_pieces / 2;
    match op {
        0 => s.p[0] = k.default_pattern(),
        1 => s.t[0] = k.transformation_from_move(&"A".parse::<Move>().unwrap()).unwrap(),
        2 => s.t[1] = k.identity_transformation(),
        3 => s.p[1] = s.p[0].clone(),
        4 => s.p[0] = s.p[0].apply_transformation(&s.t[0]),
        5 => {
            let (a, b) = s.p.split_at_mut(1);
            a[0].apply_transformation_into(&s.t[0], &mut b[0])
        }
        6 => s.t[0] = s.t[0].apply_transformation(&s.t[1]),
        7 => {
            let mut x = s.t[0].clone();
            s.t[0].apply_transformation_into(&s.t[1], &mut x);
            s.t[1] = x;
        }
        8 => s.t[1] = s.t[0].invert(),
        9 => {
            // every piece value and the largest modulus, first and last places
            for o in k.orbit_info_iter() {
                if o.num_pieces > 0 {
                    s.p[0].set_piece(o, o.num_pieces - 1, 255);
                    s.p[0].set_piece(o, 0, 7);
                    let v = OrientationWithMod { orientation: o.num_orientations - 1, orientation_mod: 0 };
                    s.p[0].set_orientation_with_mod(o, o.num_pieces - 1, &v);
                    s.p[0].set_orientation_with_mod(o, mid(o), &OrientationWithMod { orientation: 0, orientation_mod: 1 });
                }
            }
        }
        10 => {
            // leaves a map that is not a permutation
            for o in k.orbit_info_iter() {
                if o.num_pieces > 0 {
                    s.t[0].set_permutation_idx(o, o.num_pieces - 1, 0);
                    s.t[0].set_orientation_delta(o, 0, o.num_orientations - 1);
                    s.t[0].set_orientation_delta(o, o.num_pieces - 1, o.num_orientations - 1);
                }
            }
        }
        11 => {
            for o in k.orbit_info_iter() {
                for i in [o.num_pieces, o.num_pieces.saturating_add(1), 255] {
                    if i >= o.num_pieces {
                        refuse(d, || s.p[0].set_piece(o, i, 1));
                        refuse(d, || s.p[0].get_piece(o, i));
                        refuse(d, || *s.p[0].get_orientation_with_mod(o, i));
                        refuse(d, || s.p[0].set_orientation_with_mod(o, i, &OrientationWithMod { orientation: 0, orientation_mod: 0 }));
                    }
                }
            }
        }
        12 => {
            for o in k.orbit_info_iter() {
                for i in [o.num_pieces, 255] {
                    if i >= o.num_pieces {
                        refuse(d, || s.t[0].set_permutation_idx(o, i, 0));
                        refuse(d, || s.t[0].set_orientation_delta(o, i, 0));
                        refuse(d, || s.t[0].get_permutation_idx(o, i));
                        refuse(d, || s.t[0].get_orientation_delta(o, i));
                    }
                }
            }
        }
        13 => {
            for o in k.orbit_info_iter() {
                if o.num_pieces > 0 {
                    for v in [o.num_pieces, 255] {
                        if v >= o.num_pieces {
                            refuse(d, || s.t[1].set_permutation_idx(o, 0, v));
                        }
                    }
                    for v in [o.num_orientations, 106, 107, 255] {
                        if v >= o.num_orientations {
                            refuse(d, || s.t[1].set_orientation_delta(o, 0, v));
                        }
                    }
                    for (a, b) in [(o.num_orientations, 0), (255, 0), (1, 1), (0, 255), (254, 255), (0, o.num_orientations.saturating_add(1))] {
                        refuse(d, || s.p[1].set_orientation_with_mod(o, 0, &OrientationWithMod { orientation: a, orientation_mod: b }));
                    }
                }
            }
        }
        14 => {
            let x = s.p[0].to_data();
            d.add(&sorted(&x));
            s.p[1] = KPattern::try_from_data(&k, &x).unwrap();
        }
        15 => {
            let x = s.t[0].to_data();
            d.add(&sorted(&x));
            let r = KTransformation::try_from_data(&k, &x);
            d.add(&r.is_ok());
            if let Ok(x) = r {
                s.t[1] = x
            }
        }
        16 => {
            let j = serde_json::to_vec(&s.p[0].to_data()).unwrap();
            s.p[0] = KPattern::try_from_json(&k, &j).unwrap();
            d.add(&KPattern::try_from_json(&k, &j[..j.len() - 1]).is_ok());
        }
        17 => {
            // refused imports: the half-built value is dropped
            let mut x = s.p[0].to_data();
            for o in x.values_mut() {
                o.pieces.pop();
            }
            d.add(&KPattern::try_from_data(&k, &x).is_ok());
            let mut x = s.p[0].to_data();
            for o in x.values_mut() {
                if let Some(w) = o.orientation.last_mut() {
                    *w = 255
                }
            }
            d.add(&KPattern::try_from_data(&k, &x).is_ok());
            d.add(&KPattern::try_from_data(&k, &Default::default()).is_ok());
        }
        18 => {
            let mut x = s.t[0].to_data();
            for o in x.values_mut() {
                if let Some(w) = o.permutation.last_mut() {
                    *w = 255
                }
            }
            d.add(&KTransformation::try_from_data(&k, &x).is_ok());
            let mut x = s.t[0].to_data();
            for o in x.values_mut() {
                o.orientation_delta.clear();
            }
            d.add(&KTransformation::try_from_data(&k, &x).is_ok());
            d.add(&KTransformation::try_from_data(&k, &Default::default()).is_ok());
        }
        19 => {
            let mut b = KPatternBuffer::from(s.p[0].clone());
            b.apply_transformation(&s.t[0]);
            b.apply_transformation(&s.t[1]);
            b.apply_transformation(&s.t[0]);
            d.add(&(b == KPatternBuffer::from(s.p[0].clone())));
            s.p[1] = b.current().clone();
        }
        20 => {
            let mut b = KTransformationBuffer::from(s.t[0].clone());
            b.apply_transformation(&s.t[0]);
            b.apply_transformation(&s.t[1]);
            d.add(&(b == KTransformationBuffer::from(s.t[1].clone())));
            s.t[1] = b.current().clone();
        }
        21 => {
            // the puzzle handle goes; values keep it alive
            let k2 = KPuzzle::try_from_json(shapes_json.as_bytes()).unwrap();
            s.k = k2;
        }
        22 => {
            let p = s.p[0].clone();
            let t = s.t[0].clone();
            let r = std::thread::spawn(move || (p.apply_transformation(&t), t.invert())).join().unwrap();
            s.p[0] = r.0;
            s.t[0] = r.1;
        }
        23 => s.p[0] = s.p[0].apply_alg(&"(A C)2 [B: A'] // x".parse::<Alg>().unwrap()).unwrap(),
        24 => {
            d.add(&s.p[1].apply_alg(&"A (C Z)'".parse::<Alg>().unwrap()).is_err());
            d.add(&k.transformation_from_move(&"Z".parse::<Move>().unwrap()).is_err());
        }
        25 => s.t[0] = k.transformation_from_move(&"A3'".parse::<Move>().unwrap()).unwrap(),
        26 => {
            // Debug output goes through hash maps: only its length is stable
            d.add(&format!("{:?}", s.p[0]).len());
            d.add(&format!("{:?} {:?}", s.t[0], k).len());
        }
        27 => {
            d.add(&(s.p[0] == s.p[1], s.t[0] == s.t[1], s.p[0] != s.p[0], s.t[1] != s.t[1]));
            let mut m = std::collections::HashSet::new();
            m.insert(s.p[0].clone());
            m.insert(s.p[1].clone());
            d.add(&(m.len(), m.contains(&s.p[0])));
        }
        28 => s.p.swap(0, 1),
        _ => s.t.swap(0, 1),
    }
}
fn seq(json: &str, k: Option<&KPuzzle>, ops: &[usize]) -> Result<u64, String> {
    let mut d = Dig(Default::default(), 0);
    {
        let k = match k {
            Some(k) => k.clone(),
            None => KPuzzle::try_from_json(json.as_bytes()).map_err(|e| e.description)?,
        };
        let p = k.default_pattern();
        let t = k.identity_transformation();
        let mut s = Pool { p: [p.clone(), p], t: [t.clone(), t], k };
        for &o in ops {
            op(&mut s, o, &mut d, json);
        }
        for x in &s.p {
            dig_p(&mut d, x);
        }
        for x in &s.t {
            dig_t(&mut d, x);
        }
    }
    ensure(d.1 == 0, || format!("{} accesses outside the orbit, or values that do not fit it, were not refused", d.1))?;
    Ok(d.0.finish())
}
/// Run twice under different fills; compare; check the allocator's observations.
fn twice(f: impl Fn() -> Result<u64, String>, deep: bool) -> Result<(), String> {
    ensure(galloc::ACTIVE.load(std::sync::atomic::Ordering::SeqCst), || "not running under the guarding allocator".into())?;
    galloc::take_error();
    galloc::set_fill(0xA5);
    let a = guarded(&f);
    galloc::set_fill(0x02);
    let before = galloc::live();
    let b = guarded(&f);
    let made = b.is_err() as i64; // the message itself is a block
    let after = galloc::live();
    if deep {
        galloc::flush();
    }
    if let Some(e) = galloc::take_error() {
        return Err(e);
    }
    let (a, b) = (a?, b?);
    ensure(a == b, || "the result depends on the contents of unrelated memory".into())?;
    ensure(after - before == made, || format!("{} blocks stay allocated", after - before))?;
    state(a);
    trace(1);
    Ok(())
}
fn combos() -> Vec<Vec<(usize, usize)>> {
    vec![
        vec![],
        vec![(0, 1)],
        vec![(0, 2)],
        vec![(1, 1)],
        vec![(1, 2)],
        vec![(2, 1)],
        vec![(2, 2)],
        vec![(3, 2)],
        vec![(2, 3)],
        vec![(2, 2), (1, 2)],
        vec![(1, 2), (2, 2)],
        vec![(2, 2), (0, 2)],
        vec![(0, 2), (2, 2)],
        vec![(3, 1), (3, 1)],
        vec![(6, 1)],
        vec![(2, 2), (2, 2), (2, 2)],
        vec![(100, 2)],
        vec![(255, 1)],
        vec![(1, 107)],
    ]
}
fn combine(a: &KPuzzle, b: &KPuzzle, pos: usize) -> Result<u64, String> {
    let mut d = Dig(Default::default(), 0);
    let t = |k: &KPuzzle| k.transformation_from_move(&"A".parse::<Move>().unwrap()).unwrap();
    let (pa, pb, ta, tb) = (a.default_pattern(), b.default_pattern(), t(a), t(b));
    let mut out_p = pa.clone();
    let mut out_pb = pb.clone();
    let mut out_t = ta.clone();
    let mut out_tb = tb.clone();
    let r = match pos {
        0 => panics(|| {
            let x = pa.apply_transformation(&tb);
            dig_p(&mut d, &x)
        }),
        1 => panics(|| {
            pa.apply_transformation_into(&tb, &mut out_p);
            dig_p(&mut d, &out_p)
        }),
        2 => panics(|| {
            pa.apply_transformation_into(&ta, &mut out_pb);
            dig_p(&mut d, &out_pb)
        }),
        3 => panics(|| {
            let x = ta.apply_transformation(&tb);
            dig_t(&mut d, &x)
        }),
        4 => panics(|| {
            ta.apply_transformation_into(&tb, &mut out_t);
            dig_t(&mut d, &out_t)
        }),
        5 => panics(|| {
            ta.apply_transformation_into(&ta, &mut out_tb);
            dig_t(&mut d, &out_tb)
        }),
        6 => panics(|| {
            let mut x = KPatternBuffer::from(pa.clone());
            x.apply_transformation(&tb);
            dig_p(&mut d, x.current())
        }),
        7 => panics(|| {
            let mut x = KTransformationBuffer::from(ta.clone());
            x.apply_transformation(&tb);
            dig_t(&mut d, x.current())
        }),
        _ => {
            // comparing is allowed
            d.add(&(pa == pb, ta == tb));
            return Ok(d.0.finish());
        }
    };
    // the values keep their own contents or are fully replaced; either way they can be used
    for p in [&out_p, &out_pb, &pa, &pb] {
        dig_p(&mut d, p);
    }
    for t in [&out_t, &out_tb, &ta, &tb] {
        dig_t(&mut d, t);
    }
    d.add(&r.is_err());
    Ok(d.0.finish() & !1 | r.is_err() as u64)
}
fn explore(cx: &mut Cx) {
    let shapes = shapes();
    for (name, p) in &shapes {
        let j = p.json();
        let k = match guarded(|| load(p)) {
            Ok(k) => k,
            Err(e) => {
                cx.violate("shape", name.to_string(), e);
                continue;
            }
        };
        let big = *name == "255x107";
        let main = ["3x2", "2x3+0x2+1x4"].contains(name);
        let depth = match (cx.thorough, main, big) {
            (false, true, _) => 4,
            (false, false, false) => 3,
            (false, false, true) => 2,
            (true, true, _) => 5,
            (true, false, false) => 4,
            (true, false, true) => 3,
        };
        for n in 0..=depth {
            let mut heads = vec![];
            seqs(NOPS, n.min(2), &mut |h| heads.push(h.to_vec()));
            for h in heads {
                if !cx.mine() {
                    continue;
                }
                let mut c = 0;
                seqs(NOPS, n - h.len(), &mut |t| {
                    let ops: Vec<usize> = h.iter().chain(t).copied().collect();
                    // re-creating the puzzle and threads only in the shorter sequences
                    if n >= 4 && ops.iter().any(|o| *o == 21 || *o == 22) {
                        return;
                    }
                    c += 1;
                    cx.case("sequence", || format!("{} {:?}", name, ops), || twice(|| seq(&j, Some(&k), &ops), c % 64 == 0 || n < 3));
                    if n <= 2 || n == 3 && cx.thorough {
                        cx.case("sequence, new puzzle", || format!("{} {:?}", name, ops), || twice(|| seq(&j, None, &ops), true));
                    }
                });
            }
        }
    }
    // incompatible combinations
    let cs = combos();
    let ks: Vec<KPuzzle> = match guarded(|| cs.iter().map(|o| load(&puz("combo", o, Some(rot(o))))).collect::<Result<Vec<_>, _>>()) {
        Ok(v) => v,
        Err(e) => return cx.violate("combos", String::new(), e),
    };
    for i in 0..cs.len() {
        for j in 0..cs.len() {
            for pos in 0..9 {
                if !cx.mine() {
                    continue;
                }
                cx.case("combination", || format!("{:?} {:?} {}", cs[i], cs[j], pos), || {
                    let last = std::cell::Cell::new(0u64);
                    twice(
                        || {
                            let r = combine(&ks[i], &ks[j], pos)?;
                            last.set(r);
                            Ok(r)
                        },
                        true,
                    )?;
                    // orbits without pieces do not matter
                    let key = |o: &Vec<(usize, usize)>| o.iter().filter(|x| x.0 > 0).cloned().collect::<Vec<_>>();
                    if pos < 8 && key(&cs[i]) != key(&cs[j]) {
                        ensure(last.get() & 1 == 1, || "values of incompatible puzzles were combined".into())?;
                    }
                    if pos < 8 && i == j {
                        ensure(last.get() & 1 == 0, || "values of one puzzle were refused".into())?;
                    }
                    trans(1);
                    Ok(())
                });
            }
        }
    }
    // shapes: every place of every orbit of many orbit lists
    for a in 0..=4usize {
        for b in 0..=4usize {
            for c in [0usize, 1, 5, 17, 255] {
                for no in [1usize, 2, 3, 107] {
                    if !cx.mine() {
                        continue;
                    }
                    let o = [(a, no), (b, 2), (c, 3)];
                    let p = puz("layout", &o, Some(rot(&o)));
                    let j = p.json();
                    cx.case("layout", || format!("{:?}", o), || twice(|| full(&j), true));
                }
            }
        }
    }
    // values of every size
    for n in crate::zoo::wide_sizes(if cx.thorough { 1 << 18 } else { 1 << 17 }) {
        if cx.mine() {
            let o = crate::zoo::wide(n);
            let j = puz("wide", &o, Some(rot(&o))).json();
            cx.case("wide", || n.to_string(), || twice(|| full(&j), true));
        }
    }
}
/// Create, fill every place with its extreme values, read back, compose, drop.
fn full(j: &str) -> Result<u64, String> {
    let mut d = Dig(Default::default(), 0);
    let k = KPuzzle::try_from_json(j.as_bytes()).map_err(|e| e.description)?;
    let mut p = k.default_pattern();
    let mut t = k.identity_transformation();
    for o in k.orbit_info_iter() {
        let n = o.num_pieces;
        for i in 0..n {
            p.set_piece(o, i, 255 - i);
            p.set_orientation_with_mod(o, i, &OrientationWithMod { orientation: i % o.num_orientations, orientation_mod: 0 });
            t.set_permutation_idx(o, i, n - 1 - i);
            t.set_orientation_delta(o, i, (i / 2) % o.num_orientations);
            trans(4);
        }
    }
    for o in k.orbit_info_iter() {
        for i in 0..o.num_pieces {
            must("piece", p.get_piece(o, i), 255 - i)?;
            must("orientation", p.get_orientation_with_mod(o, i).orientation, i % o.num_orientations)?;
            must("place", t.get_permutation_idx(o, i), o.num_pieces - 1 - i)?;
            must("twist", t.get_orientation_delta(o, i), (i / 2) % o.num_orientations)?;
        }
    }
    let q = p.apply_transformation(&t).apply_transformation(&t.invert());
    ensure(q == p, || "transformation and inverse".into())?;
    let c = q.clone();
    drop(q);
    d.add(&c);
    d.add(&sorted(&c.to_data()));
    d.add(&sorted(&t.to_data()));
    Ok(d.0.finish())
}
fn replay(_kind: &str, _case: &str) -> Result<(), String> {
    Ok(())
}
