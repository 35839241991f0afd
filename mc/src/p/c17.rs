//! C17: concurrent use gives the results of sequential use.
use super::c16::{world, World};
use crate::bind::*;
use crate::engine::*;
use crate::refm::*;
use crate::step::*;
use cubing::alg::*;
use cubing::kpuzzle::*;
use std::hash::{Hash, Hasher};

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        level: "model_checking",
        rule: "For every operation on shared values, cold (first use of lazily created data) and warm: preemption at every instruction of the program's text, another thread there running every operation of the menu to completion or until it blocks (where it blocks, also each operation by itself), then both results and all operations afterwards compared with sequential results. Two preemptions (both threads stopped at every instruction) for the smallest pairs. states = distinct preempted instructions, transitions = instructions stepped, traces = schedules executed.",
        assumptions: &["sequentially consistent interleavings at instruction granularity; instructions inside libc (allocator, memcpy) are not preempted", "operations whose single-stepped run is long are preempted at the first occurrences of each instruction only, as listed in caps_hit"],
        explore: explore_,
        replay,
        hang_s: 600,
        nshards: 8,
    }
}
pub struct Fnv(u64);
impl Fnv {
    pub fn new() -> Fnv {
        Fnv(0xcbf29ce484222325)
    }
    pub fn b(&mut self, x: u8) {
        self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
    }
    pub fn n(&mut self, x: u64) {
        for i in 0..8 {
            self.b((x >> (8 * i)) as u8);
        }
    }
    pub fn s(&mut self, x: &str) {
        for c in x.bytes() {
            self.b(c);
        }
        self.b(0xff);
    }
    pub fn get(&self) -> u64 {
        self.0
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.b(*x);
        }
    }
}
pub fn dp(p: &KPattern) -> u64 {
    let mut h = Fnv::new();
    for o in p.kpuzzle().orbit_info_iter() {
        for i in 0..o.num_pieces {
            h.b(p.get_piece(o, i));
            let w = p.get_orientation_with_mod(o, i);
            h.b(w.orientation);
            h.b(w.orientation_mod);
        }
    }
    h.0
}
pub fn dt(t: &KTransformation) -> u64 {
    let mut h = Fnv::new();
    for o in t.kpuzzle().orbit_info_iter() {
        for i in 0..o.num_pieces {
            h.b(t.get_permutation_idx(o, i));
            h.b(t.get_orientation_delta(o, i));
        }
    }
    h.0
}
struct Sh {
    w: World,
    /// the same name and number of bytes as w.k[0], other orbits
    e: KPuzzle,
    ep: KPattern,
    et: KTransformation,
    ealg: Alg,
    ma: Move,
    mc: Move,
    mz: Move,
    alg: Alg,
    long: Alg,
    t2: KTransformation,
    data: KPatternData,
    tdata: KTransformationData,
}
type Op = (&'static str, fn(&Sh) -> u64, bool);
fn ds(x: &str) -> u64 {
    let mut h = Fnv::new();
    h.s(x);
    h.0
}
fn r(t: Result<KTransformation, InvalidAlgError>) -> u64 {
    match t {
        Ok(t) => dt(&t),
        Err(_) => 1,
    }
}
/// (name, operation, short enough for every occurrence)
const OPS: &[Op] = &[
    ("apply pattern", |s| dp(&s.w.p[0].apply_transformation(&s.w.t[0])), true),
    ("compose", |s| dt(&s.w.t[0].apply_transformation(&s.t2)), true),
    ("invert", |s| dt(&s.t2.invert()), true),
    ("clone and drop", |s| {
        let k = s.w.k[0].clone();
        let p = s.w.p[0].clone();
        let t = s.w.t[0].clone();
        let n = k.orbit_info_iter().len() as u64;
        drop(k);
        let a = s.alg.clone();
        let m = s.mc.clone();
        let q = m.quantum.clone();
        drop(m);
        n.wrapping_add(dp(&p)).wrapping_add(dt(&t)).wrapping_add(a.nodes.len() as u64 + q.family.len() as u64)
    }, true),
    ("compare and hash", |s| {
        let mut h = Fnv::new();
        s.w.p[0].hash(&mut h);
        s.ma.hash(&mut h);
        h.0.wrapping_add((s.w.p[0] == s.w.p[1]) as u64 + 2 * (s.w.t[0] == s.t2) as u64 + 4 * (s.alg == s.alg) as u64 + 8 * (s.ma == s.mc) as u64)
    }, true),
    ("identity and default", |s| dt(&s.w.k[0].identity_transformation()).wrapping_add(dp(&s.w.k[1].default_pattern())), true),
    ("copy and set", |s| {
        let mut p = s.w.p[0].clone();
        let o = &s.w.k[0].data.ordered_orbit_info[0];
        p.set_piece(o, 1, 77);
        p.set_orientation_with_mod(o, 2, &OrientationWithMod { orientation: 0, orientation_mod: 1 });
        let mut t = s.t2.clone();
        t.set_orientation_delta(o, 0, 2);
        dp(&p).wrapping_add(dt(&t)).wrapping_add(dp(&s.w.p[0]))
    }, true),
    ("buffers", |s| {
        let mut b = KPatternBuffer::from(s.w.p[0].clone());
        b.apply_transformation(&s.w.t[0]);
        b.apply_transformation(&s.t2);
        let mut c = KTransformationBuffer::from(s.t2.clone());
        c.apply_transformation(&s.w.t[0]);
        dp(b.current()).wrapping_add(dt(c.current()))
    }, true),
    ("look up a move", |s| r(s.w.k[0].transformation_from_move(&s.ma)), true),
    ("look up a derived move", |s| r(s.w.k[0].transformation_from_move(&s.mc)), false),
    ("look up a missing move", |s| r(s.w.k[0].transformation_from_move(&s.mz)), true),
    ("evaluate an alg", |s| r(s.w.k[0].transformation_from_alg(&s.alg)), false),
    ("apply a move of another puzzle of that name", |s| s.w.p[1].apply_move(&s.ma).map(|p| dp(&p)).unwrap_or(1), true),
    ("invert an alg", |s| ds(&s.long.invert().to_string()), false),
    ("print an alg", |s| ds(&s.long.to_string()), false),
    ("parse an alg", |_| "R2' (1, -2) /".parse::<Alg>().map(|a| ds(&a.to_string())).unwrap_or(1), false),
    ("parse a bad alg", |_| "R (U".parse::<Alg>().is_err() as u64, false),
    ("parse a move", |_| "2-3Rw2'".parse::<Move>().map(|m| ds(&format!("{:?}", m))).unwrap_or(1), true),
    ("export", |s| {
        let d = s.w.p[0].to_data();
        let e = s.w.t[0].to_data();
        let n = |i: usize| s.w.k[0].data.ordered_orbit_info[i].name.clone();
        let mut h = Fnv::new();
        for i in 0..2 {
            h.write(&d[&n(i)].pieces);
            h.write(&d[&n(i)].orientation);
            h.write(&e[&n(i)].permutation);
        }
        h.0
    }, true),
    ("import", |s| {
        let p = KPattern::try_from_data(&s.w.k[0], &s.data).map(|p| dp(&p)).unwrap_or(1);
        let t = KTransformation::try_from_data(&s.w.k[0], &s.tdata).map(|t| dt(&t)).unwrap_or(1);
        p.wrapping_add(t)
    }, true),
    ("write a move as JSON", |s| ds(&serde_json::to_string(&s.mc).unwrap_or_default()), true),
    ("read a move from JSON", |_| serde_json::from_str::<Move>("\"2-3Rw2'\"").map(|m| ds(&format!("{:?}", m))).unwrap_or(1), true),
    ("write an alg as JSON", |s| ds(&serde_json::to_string(&s.long).unwrap_or_default()), false),
    ("read an alg from JSON", |_| serde_json::from_str::<Alg>("\"R2' (1, -2) /\"").map(|a| ds(&a.to_string())).unwrap_or(1), false),
    ("print a move and its inverse", |s| ds(&format!("{} {} {} {:?}", s.mc, s.mc.invert(), s.ma.quantum, s.ma)), true),
    ("a quantum move as JSON and back", |s| {
        let j = serde_json::to_string(&*s.mc.quantum).unwrap_or_default();
        ds(&j).wrapping_add(serde_json::from_str::<QuantumMove>(&j).map(|q| ds(&q.to_string())).unwrap_or(1))
    }, true),
    ("print a pattern and a transformation", |s| {
        // what is a map inside is printed in any order
        let n = |x: String| x.bytes().map(|b| b as u64).sum::<u64>();
        n(format!("{:?}", s.w.p[0])).wrapping_add(3 * n(format!("{:?}", s.w.t[0])))
    }, false),
    ("use a puzzle of equal size", |s| other(s), false),
    ("be refused with a panic", |s| misuse(s), false),
    ("load a puzzle", |s| KPuzzle::try_from_json(s.w.json[2].as_bytes()).map(|k| dp(&k.default_pattern())).unwrap_or(1), false),
];
/// Everything that can displace what the operations on the first puzzle have left behind.
fn other(s: &Sh) -> u64 {
    let mut h = Fnv::new();
    h.n("[U', D2] (-1, 2)".parse::<Alg>().map(|a| ds(&a.invert().to_string())).unwrap_or(1));
    h.n("3-4Uw3".parse::<Move>().map(|a| ds(&a.to_string())).unwrap_or(1));
    h.n(dt(&s.et.invert()));
    h.n(dt(&s.et.apply_transformation(&s.et)));
    h.n(dp(&s.ep.apply_transformation(&s.et)));
    h.n(r(s.e.transformation_from_alg(&s.ealg)));
    h.n(r(s.e.transformation_from_move(&s.mc)));
    h.n(r(s.e.transformation_from_move(&s.ma)));
    h.n(dt(&s.e.identity_transformation()));
    h.n(dp(&s.e.default_pattern()));
    h.n(misuse(s));
    h.0
}
/// Calls that are refused with a panic, which must not affect anyone else.
fn misuse(s: &Sh) -> u64 {
    let o = &s.w.k[0].data.ordered_orbit_info[0];
    let p = || s.w.p[0].clone();
    let refused = [
        panics(|| s.et.apply_transformation(&s.t2)).is_err(),
        panics(|| s.w.p[0].apply_transformation(&s.et)).is_err(),
        panics(|| s.w.t[0].apply_transformation_into(&s.t2, &mut s.et.clone())).is_err(),
        panics(|| s.w.p[0].get_piece(o, 200)).is_err(),
        panics(|| s.t2.get_orientation_delta(o, o.num_pieces)).is_err(),
        panics(|| p().set_piece(o, 200, 0)).is_err(),
        panics(|| s.t2.clone().set_permutation_idx(o, 0, o.num_pieces)).is_err(),
        panics(|| KPatternBuffer::from(p()).apply_transformation(&s.et)).is_err(),
        panics(|| KTransformationBuffer::from(s.t2.clone()).apply_transformation(&s.et)).is_err(),
    ];
    refused.iter().fold(0, |n, r| 2 * n + *r as u64)
}
/// Ends with the puzzle of equal size: what the other operations remembered is gone.
fn all(s: &Sh) -> u64 {
    let mut h = Fnv::new();
    for (_, f, _) in OPS {
        h.n(f(s));
    }
    h.n(other(s));
    h.0
}
/// A puzzle with the number of bytes of variant 0, and its orbits in another split.
fn equal() -> RPuz {
    let two = |p: Vec<usize>, d: Vec<usize>, q: Vec<usize>, e: Vec<usize>| vec![(p, d), (q, e)];
    RPuz::new(PSpec {
        name: "same",
        orbits: vec![("P", 3, 3), ("Q", 3, 2)],
        default: None,
        moves: vec![("A", two(vec![1, 2, 0], vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 1])), ("B", two(vec![2, 1, 0], vec![2, 0, 0], vec![1, 0, 2], vec![0, 0, 1]))],
        derived: vec![("C", "B A'")],
    })
}
fn shared() -> Result<Sh, String> {
    let w = world()?;
    let m = |a: &str, n: i64| to_mv(&RMove { pre: RPre::No, fam: a.into(), amt: n });
    let v = super::c16::variant(0);
    let t2 = t_make(&w.k[0], &v.orbits, &v.moves[1].1)?;
    let eq = equal();
    let e = load(&eq)?;
    let a = RN::M(mv("A", 2));
    let b = RN::M(mv("B", -1));
    let sq = RN::G(vec![RN::M(mv("U_SQ_", 1)), RN::M(mv("D_SQ_", -2))], 1);
    Ok(Sh {
        ep: p_make(&e, &eq.orbits, &rapply(&eq.orbits, &eq.default, &eq.moves[1].1))?,
        et: t_make(&e, &eq.orbits, &eq.moves[0].1)?,
        ealg: to_alg(&[RN::G(vec![b.clone(), a.clone()], 3)]),
        e,
        ma: m("A", -2),
        mc: m("C", 1),
        mz: m("Z", 1),
        alg: to_alg(&[RN::G(vec![a.clone(), b.clone()], -2)]),
        long: to_alg(&[RN::J(vec![a.clone()], vec![RN::K(vec![b.clone()], vec![a])]), sq, RN::M(mv("_SLASH_", 1)), b]),
        data: p_data(&v.orbits, &v.default),
        tdata: t_data(&v.orbits, &v.moves[1].1),
        t2,
        w,
    })
}
fn explore_(cx: &mut Cx) {
    let s = match guarded(shared) {
        Ok(s) => s,
        Err(e) => return cx.violate("shared values", String::new(), e),
    };
    let alone = |f: &dyn Fn() -> u64| -> Option<u64> { fork_out(|| f().to_le_bytes().to_vec()).map(|v| u64::from_le_bytes(v.try_into().unwrap())) };
    let want_b = match alone(&|| all(&s)) {
        Some(v) => v,
        None => return cx.violate("alone", "all".into(), "the operations fail sequentially".into()),
    };
    let t = cx.thorough;
    let wants: Vec<u64> = OPS.iter().map(|o| alone(&|| (o.1)(&s)).unwrap_or(0)).collect();
    for warm in [false, true] {
        for (i, (name, f, short)) in OPS.iter().enumerate() {
            let Some(want) = alone(&|| f(&s)) else {
                cx.violate("alone", name.to_string(), "fails alone".into());
                continue;
            };
            let per_rip = if *short { u32::MAX } else if t { 24 } else { 3 };
            if !*short {
                cx.cap(format!("{}: first {} occurrences of every instruction", name, per_rip));
            }
            let (shard, nshards) = (cx.shard as u64, cx.nshards as u64);
            let mut rep = None;
            cx.case("single preemption", || format!("{} {}", name, if warm { "warm" } else { "cold" }), || {
                let out = fork_out(|| {
                    if warm {
                        all(&s);
                        f(&s);
                    }
                    let a = || f(&s);
                    let b = || all(&s);
                    let each: Vec<Box<dyn Fn() -> u64 + Sync>> = OPS.iter().map(|o| Box::new(|| (o.1)(&s)) as Box<dyn Fn() -> u64 + Sync>).collect();
                    let singles: Vec<(&(dyn Fn() -> u64 + Sync), u64)> = each.iter().zip(&wants).map(|(f, w)| (&**f, *w)).collect();
                    let plan = Plan { a: &a, b: &b, after: &b, want_a: want, want_b, want_after: want_b, shard, nshards, per_rip, pair: None, singles: &singles };
                    encode(&explore(&plan))
                })
                .ok_or("the explorer died")?;
                let r = decode(&out);
                rep = Some(r.clone());
                trans(r.steps / nshards);
                trace(r.points);
                match r.fail {
                    Some(e) => Err(e),
                    None => Ok(()),
                }
            });
            if let Some(r) = rep {
                cx.count("schedules", r.points);
                cx.count("schedules in which the other thread blocked", r.blocked);
                if cx.shard == 0 {
                    cx.sample(format!("{} ({}): {} instructions, {} of them distinct, {} schedules in this worker", name, if warm { "warm" } else { "cold" }, r.steps, r.rips, r.points));
                }
            }
            let _ = i;
        }
    }
    // two preemptions
    let pairs: &[(usize, usize)] = if t { &[(0, 0), (1, 1), (3, 3), (4, 4), (5, 5), (6, 6), (0, 6), (3, 0), (2, 1)] } else { &[] };
    init_shared();
    for &(x, y) in pairs {
        let (want_a, want_y) = match (alone(&|| OPS[x].1(&s)), alone(&|| OPS[y].1(&s))) {
            (Some(a), Some(b)) => (a, b),
            _ => continue,
        };
        let stride = 5u64;
        let mut i = 0;
        let mut ended = false;
        cx.cap(format!("two preemptions of {} and {}: every {}th instruction of each", OPS[x].0, OPS[y].0, stride));
        while !ended {
            if !cx.mine() {
                i += stride;
                if i > 1_000_000 {
                    break;
                }
                continue;
            }
            cx.case("two preemptions", || format!("{} / {} at {}", OPS[x].0, OPS[y].0, i), || {
                let mut j = 0;
                loop {
                    init_shared();
                    let e = in_child(30, || {
                        let a = || OPS[x].1(&s);
                        let b = || OPS[y].1(&s);
                        let c = || all(&s);
                        run_pair(&Plan { a: &a, b: &b, after: &c, want_a, want_b: want_y, want_after: want_b, shard: 0, nshards: 1, per_rip: 0, pair: Some((i, j)), singles: &[] })
                    });
                    match e {
                        ChildEnd::Code(0) => trace(1),
                        ChildEnd::Code(2) => {
                            ended = true;
                            return Ok(());
                        }
                        ChildEnd::Code(3) => return Ok(()),
                        ChildEnd::Code(1) => return Err(format!("at {} and {}: {}", i, j, pair_message())),
                        e => return Err(format!("at {} and {}: {:?}", i, j, e)),
                    }
                    j += stride;
                }
            });
            i += stride;
        }
    }
}
fn replay(_kind: &str, _case: &str) -> Result<(), String> {
    Ok(())
}
