//! C18: embedded values load once and correctly.
use crate::embedded;
use cubing::kpuzzle::*;
use mc::bind::*;
use mc::engine::*;
use mc::gen::*;
use mc::p::c16::variant;
use mc::p::c17::{dp, dt, Fnv};
use mc::refm::*;
use mc::step::*;
use std::sync::atomic::{AtomicU64, Ordering::*};

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        level: "model_checking",
        rule: "All sequences of first calls up to a depth over fourteen embedded values (puzzles, patterns, transformations; same names for different kinds and in different modules; built on one another; two that cannot load), each sequence in a fresh process: every call must return the same shared value, equal to the reference value. For each loadable value, its first call preempted at the instructions of the program's text, another thread there calling the same accessor first or last among all others: results equal, one shared value, no second load (allocations counted). states = distinct preempted instructions and sequence prefixes, transitions = instructions stepped and calls, traces = schedules and sequences.",
        assumptions: &["sequentially consistent interleavings at instruction granularity; instructions inside libc are not preempted", "a second load is recognised by the memory it allocates"],
        explore: explore_,
        replay,
        hang_s: 800,
        nshards: 8,
    }
}
enum V {
    K(&'static KPuzzle),
    P(&'static KPattern),
    T(&'static KTransformation),
}
const NAMES: [&str; 14] = ["e_kpuzzle", "e_kpattern", "e_ktransformation", "other_kpattern", "other_ktransformation", "inner::e_kpuzzle", "inner::e_kpattern", "inner::hidden_kpuzzle", "cube3x3x3_kpuzzle", "cube2x2x2_kpuzzle", "inner::other_kpattern", "inner::other_ktransformation", "bad::e_kpuzzle", "bad::other_kpattern"];
const N: usize = 12;
fn get(i: usize) -> V {
    use embedded::*;
    match i {
        0 => V::K(e_kpuzzle()),
        1 => V::P(e_kpattern()),
        2 => V::T(e_ktransformation()),
        3 => V::P(other_kpattern()),
        4 => V::T(other_ktransformation()),
        5 => V::K(inner::e_kpuzzle()),
        6 => V::P(inner::e_kpattern()),
        7 => V::K(inner::hidden()),
        8 => V::K(cubing::puzzles::cube3x3x3_kpuzzle()),
        9 => V::K(cubing::puzzles::cube2x2x2_kpuzzle()),
        10 => V::P(inner::other_kpattern()),
        11 => V::T(inner::other_ktransformation()),
        12 => V::K(bad::e_kpuzzle()),
        _ => V::P(bad::other_kpattern()),
    }
}
fn digest_k(k: &KPuzzle) -> u64 {
    let mut h = Fnv::new();
    h.s(&k.definition().name);
    h.n(dp(&k.default_pattern()));
    for m in ["A", "B", "Z", "A2'", "A++", "C", "D2", "U", "R'", "x", "2R"] {
        let m: cubing::alg::Move = m.parse().unwrap();
        match k.transformation_from_move(&m) {
            Ok(t) => h.n(dt(&t)),
            Err(e) => h.s(&e.to_string()),
        }
    }
    h.get()
}
/// The puzzles differ in their default patterns.
fn whose(k: &KPuzzle) -> u64 {
    dp(&k.default_pattern()).rotate_left(7)
}
fn digest(v: &V) -> u64 {
    match v {
        V::K(k) => digest_k(k),
        V::P(p) => dp(p) ^ whose(p.kpuzzle()),
        V::T(t) => dt(t) ^ whose(t.kpuzzle()),
    }
}
fn addr(v: &V) -> u64 {
    match v {
        V::K(k) => *k as *const KPuzzle as u64,
        V::P(p) => *p as *const KPattern as u64,
        V::T(t) => *t as *const KTransformation as u64,
    }
}
struct Counting;
impl Drop for Counting {
    fn drop(&mut self) {
        crate::COUNTING.with(|c| c.set(false))
    }
}
fn call(i: usize) -> V {
    crate::COUNTING.with(|c| c.set(true));
    let _g = Counting;
    get(i)
}
/// What the accessor must return, from the reference model.
fn reference(i: usize) -> Option<Result<u64, String>> {
    let k = |v: usize| -> Result<u64, String> { Ok(digest_k(&load(&variant(v))?)) };
    let ev = |v: usize, a: &str| {
        let p = variant(v);
        let t = p.alg(&rparse(a).unwrap()).unwrap();
        (p, t)
    };
    let pat = |v: usize, q: RP| {
        let p = variant(v);
        let k = load(&p)?;
        Ok(dp(&p_make(&k, &p.orbits, &q)?) ^ whose(&k))
    };
    Some(match i {
        0 => k(0),
        5 => k(1),
        7 => k(2),
        1 | 6 | 10 => (|| {
            let t = ev(if i == 6 { 1 } else { 0 }, "A B2").1;
            let q = rapply(&variant(0).orbits, &variant(if i == 6 { 1 } else { 0 }).default, &t);
            pat(if i == 1 { 0 } else { 1 }, q)
        })(),
        2 | 4 | 11 => (|| {
            let t = ev(if i == 4 { 1 } else { 0 }, "A B2").1;
            let p = variant(if i == 2 { 0 } else { 1 });
            let k = load(&p)?;
            Ok(dt(&t_make(&k, &p.orbits, &t)?) ^ whose(&k))
        })(),
        3 => (|| {
            let (p, t) = ev(0, "B' A");
            let mut q = rapply(&p.orbits, &p.default, &t);
            q[0].0[0] = 7;
            q[0].1[1] = 0;
            q[0].2[1] = 1;
            pat(0, q)
        })(),
        _ => return None,
    })
}
/// A sequence of first calls, then all of them again.
fn sequence(seq: &[usize], want: &[u64]) -> Result<(), String> {
    let mut seen = [0u64; 14];
    let mut one = |i: usize| -> Result<(), String> {
        if i >= N {
            return match panics(|| {
                call(i);
            }) {
                Err(_) => Ok(()),
                Ok(()) => Err(format!("{} returned a value", NAMES[i])),
            };
        }
        let v = call(i);
        must(NAMES[i], digest(&v), want[i])?;
        let a = addr(&v);
        if seen[i] == 0 {
            seen[i] = a
        }
        ensure(seen[i] == a, || format!("{} returned another value on a later call", NAMES[i]))
    };
    for i in seq.iter().copied() {
        one(i)?;
    }
    for i in (0..14).rev().chain(0..14) {
        one(i)?;
    }
    trans(seq.len() as u64 + 28);
    Ok(())
}
static PA: [AtomicU64; N] = [const { AtomicU64::new(0) }; N];
static PB: [AtomicU64; N] = [const { AtomicU64::new(0) }; N];
fn rec(i: usize, p: &[AtomicU64; N]) -> u64 {
    let v = call(i);
    p[i].store(addr(&v), SeqCst);
    digest(&v)
}
fn alone(f: &dyn Fn() -> u64) -> Option<u64> {
    fork_out(|| f().to_le_bytes().to_vec()).map(|v| u64::from_le_bytes(v.try_into().unwrap()))
}
fn run_seq(text: &str, want: &[u64]) -> Result<(), String> {
    let seq: Vec<usize> = text.split(' ').map(|x| NAMES.iter().position(|n| *n == x).ok_or(format!("no accessor {}", x))).collect::<Result<_, _>>()?;
    forked(&seq, want)
}
fn forked(seq: &[usize], want: &[u64]) -> Result<(), String> {
    trace(1);
    state_of(seq);
    let out = fork_out(|| match guarded(|| sequence(seq, want)) {
        Ok(()) => vec![],
        Err(e) => e.into_bytes(),
    })
    .ok_or("the process died")?;
    if out.is_empty() {
        Ok(())
    } else {
        Err(String::from_utf8_lossy(&out).to_string())
    }
}
fn wants() -> Result<Vec<u64>, String> {
    let mut want = vec![];
    for i in 0..N {
        let w = alone(&|| digest(&call(i))).ok_or(format!("{} fails", NAMES[i]))?;
        // The reference is computed in a fork too: this process must not load anything.
        if reference_known(i) {
            let r = fork_out(|| match guarded(|| reference(i).unwrap()) {
                Ok(v) => v.to_le_bytes().to_vec(),
                Err(e) => format!("E{}", e).into_bytes(),
            })
            .ok_or("reference failed")?;
            let r = u64::from_le_bytes(r.try_into().map_err(|v: Vec<u8>| String::from_utf8_lossy(&v).to_string())?);
            if r != w {
                return Err(format!("{} is not the value in its file", NAMES[i]));
            }
        } else {
            let f = if i == 8 { "3x3x3" } else { "2x2x2" };
            if let Ok(b) = std::fs::read(format!("/repo/cubing_core/src/puzzles/{}.kpuzzle.json", f)) {
                let d = alone(&|| digest_k(&KPuzzle::try_from_json(&b).unwrap())).ok_or("direct load failed")?;
                if d != w {
                    return Err(format!("{} is not the value in its file", NAMES[i]));
                }
            }
        }
        want.push(w);
    }
    Ok(want)
}
fn reference_known(i: usize) -> bool {
    i != 8 && i != 9
}
fn explore_(cx: &mut Cx) {
    let want = match guarded(wants) {
        Ok(w) => w,
        Err(e) => return cx.violate("values", "values".into(), e),
    };
    let name = |s: &[usize]| s.iter().map(|i| NAMES[*i]).collect::<Vec<_>>().join(" ");
    let depth = if cx.thorough { 4 } else { 3 };
    for n in 1..=depth {
        seqs(14, n, &mut |s| {
            if cx.mine() {
                let s = s.to_vec();
                cx.case("order of first calls", || name(&s), || forked(&s, &want));
            }
        });
    }
    if cx.thorough {
        for p in perms(8) {
            if cx.mine() {
                cx.case("order of first calls", || name(&p), || forked(&p, &want));
            }
        }
    }
    // Racing first calls.
    // How much the calls allocate after `pre`; not always the same, as hash maps are iterated in
    // random order. The least and the most, with a margin as large as what was seen.
    let totals = |pre: &[usize], set: &[usize]| {
        let v: Vec<u64> = (0..24)
            .filter_map(|_| {
                alone(&|| {
                    for i in pre {
                        call(*i);
                    }
                    let a = crate::ALLOCS.load(SeqCst);
                    for i in set {
                        call(*i);
                    }
                    crate::ALLOCS.load(SeqCst) - a
                })
            })
            .collect();
        let (lo, hi) = (v.iter().min().copied().unwrap_or(0), v.iter().max().copied().unwrap_or(0));
        (lo, hi + (hi - lo))
    };
    let mut case_no = 0;
    for i in [8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 10, 11] {
        // what it is built on
        let deps: Vec<usize> = match i {
            1..=3 => vec![0],
            4 | 6 | 10 | 11 => vec![5],
            _ => vec![],
        };
        // On its own (what it is built on loaded before), then among others.
        for (last, only) in [(false, true), (false, false), (true, false)] {
            let big = i == 8 || i == 9;
            let per_rip: u32 = match (cx.thorough, big) {
                (false, false) => 1,
                (false, true) => 1,
                (true, false) => 16,
                (true, true) => 3,
            };
            cx.cap(format!("racing first calls: first {} occurrences of every instruction ({})", per_rip, if big { "built-in puzzles" } else { "small files" }));
            // Loading a built-in puzzle takes long: quick leaves those that are not involved out.
            let set: Vec<usize> = (0..N).filter(|j| if only { *j == i } else { cx.thorough || *j == i || *j < 2 || (i < 8 && *j == (i + 1) % 8) || (i == 1 && *j == 10) || (i == 2 && *j == 11) || (i > 9 && *j == i - 9) }).collect();
            if !cx.thorough && ((last && ![1, 2, 5].contains(&i)) || (only && big)) {
                continue;
            }
            let others = set.iter().copied().filter(|j| *j != i);
            let order: Vec<usize> = if last { others.rev().chain([i]).collect() } else { [i].into_iter().chain(others).collect() };
            // Two workers per case: stepping costs as much as the schedules.
            case_no += 1;
            let mut half = None;
            for h in 0..2 {
                if (case_no * 2 + h) % cx.nshards == cx.shard {
                    half = Some(h as u64);
                }
            }
            let Some(shard) = half else { continue };
            let nshards = 2;
            let pre = if only { deps.clone() } else { vec![] };
            let limit = totals(&pre, &set).1 + totals(&deps, &[i]).0 / 2;
            let mut rep = None;
            let mut hb = Fnv::new();
            for j in &order {
                hb.n(want[*j]);
            }
            let want_b = hb.get();
            cx.case("racing first calls", || format!("{} {}", NAMES[i], if only { "alone" } else if last { "last" } else { "first" }), || {
                let out = fork_out(|| {
                    for j in &pre {
                        call(*j);
                    }
                    let before = crate::ALLOCS.load(SeqCst);
                    let a = || {
                        crate::COUNTING.with(|c| c.set(true));
                        let v = get(i);
                        crate::COUNTING.with(|c| c.set(false));
                        PA[i].store(addr(&v), SeqCst);
                        0
                    };
                    let b = || {
                        let mut h = Fnv::new();
                        for j in &order {
                            h.n(rec(*j, &PB));
                        }
                        h.get()
                    };
                    let c = || {
                        for &j in &set {
                            let v = call(j);
                            if digest(&v) != want[j] {
                                panic!("{} has another value", NAMES[j]);
                            }
                            for p in [&PA[j], &PB[j]] {
                                let p = p.load(SeqCst);
                                if p != 0 && p != addr(&v) {
                                    panic!("two callers of {} got different values", NAMES[j]);
                                }
                            }
                        }
                        let n = crate::ALLOCS.load(SeqCst) - before;
                        if n > limit {
                            panic!("loaded twice ({} allocations, limit {})", n, limit);
                        }
                        0
                    };
                    let plan = Plan { a: &a, b: &b, after: &c, want_a: 0, want_b, want_after: 0, shard, nshards, per_rip, pair: None, singles: &[] };
                    encode(&explore(&plan))
                })
                .ok_or("the explorer died")?;
                let r = decode(&out);
                rep = Some(r.clone());
                trans(r.steps / nshards);
                trace(r.points);
                match r.fail {
                    Some(e) => Err(e),
                    None => Ok(()),
                }
            });
            if let Some(r) = rep {
                cx.count("schedules", r.points);
                cx.count("schedules in which the other thread blocked", r.blocked);
                if shard == 0 {
                    cx.sample(format!("{} ({} first): {} instructions, {} distinct, {} schedules in this worker", NAMES[i], if last { "others" } else { "same" }, r.steps, r.rips, r.points));
                }
            }
        }
    }
}
fn replay(kind: &str, case: &str) -> Result<(), String> {
    let want = wants()?;
    if kind == "order of first calls" {
        return run_seq(case, &want);
    }
    Ok(())
}
