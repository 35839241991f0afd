//! Custom puzzles used by several checks.
use crate::refm::*;

pub fn cyc(n: usize, cycles: &[&[usize]]) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    for c in cycles {
        for i in 0..c.len() {
            p[c[i]] = c[(i + 1) % c.len()];
        }
    }
    p
}
/// A puzzle with an involutive slash, commuting Square-1 halves, derived moves, prefixes,
/// puzzle-specific suffix families and amount-specific definitions.
pub fn sq() -> RPuz {
    let o = |p: Vec<usize>, po: [usize; 5], q: Vec<usize>, qo: [usize; 3]| {
        vec![(p, po.to_vec()), (q, qo.to_vec()), (vec![], vec![])]
    };
    let idp = || cyc(5, &[]);
    let idq = || cyc(3, &[]);
    RPuz::new(PSpec {
        name: "sq",
        orbits: vec![("P", 5, 3), ("Q", 3, 2), ("EMPTY", 0, 5)],
        default: None,
        moves: vec![
            ("/", o(cyc(5, &[&[0, 3], &[1, 4]]), [1, 0, 0, 2, 0], idq(), [0, 0, 0])),
            ("U_SQ_", o(cyc(5, &[&[0, 1, 2]]), [1, 0, 0, 0, 0], idq(), [0, 0, 0])),
            ("D_SQ_", o(idp(), [0; 5], cyc(3, &[&[0, 1, 2]]), [1, 0, 0])),
            ("A", o(cyc(5, &[&[0, 1, 2]]), [1, 2, 0, 0, 0], cyc(3, &[&[0, 1]]), [0, 0, 1])),
            ("B", o(cyc(5, &[&[2, 3, 4]]), [0, 0, 1, 0, 0], cyc(3, &[&[1, 2]]), [1, 0, 0])),
            ("2A", o(cyc(5, &[&[0, 4]]), [0, 0, 0, 1, 0], idq(), [0, 1, 0])),
            ("2-3A", o(cyc(5, &[&[1, 3]]), [0, 1, 0, 0, 0], idq(), [0, 0, 1])),
            ("A++", o(cyc(5, &[&[0, 1, 2, 3, 4]]), [0, 0, 0, 0, 1], idq(), [0, 0, 0])),
            ("A1+", o(cyc(5, &[&[0, 2, 4, 1, 3]]), [0, 0, 2, 0, 0], idq(), [1, 1, 0])),
            ("T3", o(cyc(5, &[&[3, 4]]), [2, 0, 0, 0, 0], idq(), [0, 1, 1])),
        ],
        derived: vec![
            ("C", "A B"),
            ("D", "[A: C]2'"),
            ("E2", "[C, B] A'"),
            ("F", "(C D)2 / A++ // x\n [B: E2']"),
        ],
    })
}
/// Order-n and mixed orders for big amounts.
pub fn tiny() -> RPuz {
    RPuz::new(PSpec {
        name: "tiny",
        orbits: vec![("P", 2, 2)],
        default: None,
        moves: vec![
            ("A", vec![(vec![1, 0], vec![0, 1])]),
            ("B", vec![(vec![0, 1], vec![1, 0])]),
        ],
        derived: vec![("C", "A B")],
    })
}
/// No coincidences: the slash is of order 3, the Square-1 halves do not commute, nothing undoes itself.
pub fn free() -> RPuz {
    let o = |p: Vec<usize>, po: [usize; 5]| vec![(p, po.to_vec())];
    RPuz::new(PSpec {
        name: "free",
        orbits: vec![("P", 5, 5)],
        default: None,
        moves: vec![
            ("/", o(cyc(5, &[&[0, 3, 4]]), [1, 0, 0, 2, 0])),
            ("U_SQ_", o(cyc(5, &[&[0, 1, 2]]), [1, 0, 0, 0, 0])),
            ("D_SQ_", o(cyc(5, &[&[1, 2, 3, 4]]), [0, 2, 0, 0, 1])),
            ("A", o(cyc(5, &[&[0, 1, 2], &[3, 4]]), [1, 2, 0, 0, 0])),
            ("B", o(cyc(5, &[&[2, 3, 4]]), [0, 0, 1, 0, 0])),
            ("A++", o(cyc(5, &[&[0, 1, 2, 3, 4]]), [0, 0, 0, 0, 1])),
            ("A1+", o(cyc(5, &[&[0, 2, 4, 1, 3]]), [0, 0, 2, 0, 0])),
            ("T3", o(cyc(5, &[&[1, 3, 4]]), [2, 0, 0, 0, 0])),
        ],
        derived: vec![("C", "A B"), ("S", "/ A"), ("V2", "(1, 1) /")],
    })
}

/// Sizes (in bytes, of one value) at which sizes are easily got wrong.
pub fn wide_sizes(max: usize) -> Vec<usize> {
    let mut v = vec![];
    for b in 6..=20 {
        for n in [(1usize << b) - 2, 1 << b, (1 << b) + 2] {
            if n <= max {
                v.push(n);
            }
        }
    }
    v
}
/// Orbits whose values take `bytes` (an even number) together.
pub fn wide(bytes: usize) -> Vec<(usize, usize)> {
    let mut left = bytes / 2;
    let mut l = vec![];
    while left > 0 {
        let np = left.min([251, 7, 128, 255, 64][l.len() % 5]);
        l.push((np, [3, 1, 12, 107, 2][l.len() % 5]));
        left -= np;
    }
    l
}
/// A transformation of such a puzzle that moves and twists everything.
pub fn wide_t(o: &[ROrbit], s: usize) -> RT {
    o.iter().enumerate().map(|(j, o)| ((0..o.np).map(|i| (i + s + j) % o.np).collect(), (0..o.np).map(|i| (i * s + j) % o.no).collect())).collect()
}
/// Transformations that change one entry (or exchange two) at either end.
pub fn wide_single(o: &[ROrbit]) -> Vec<RT> {
    let mut v = vec![];
    for q in [0, o.len() / 2, o.len().saturating_sub(2), o.len() - 1] {
        let n = o[q].np;
        for i in [0, n / 2, n - 1] {
            let mut t = rid(o);
            t[q].1[i] = 1 % o[q].no;
            v.push(t);
            let mut t = rid(o);
            t[q].0.swap(i, (i + 1) % n);
            v.push(t);
        }
    }
    v.sort();
    v.dedup();
    v
}
/// A pattern with many different entries.
pub fn wide_p(o: &[ROrbit]) -> RP {
    o.iter()
        .enumerate()
        .map(|(j, o)| {
            let d = crate::gen::divisors(o.no);
            let m = |i: usize| if (i + j) % 3 == 0 { 0 } else { d[(i + j) % d.len()] };
            (
                (0..o.np).map(|i| ((i * 7 + j) % 256) as _).collect(),
                (0..o.np).map(|i| (i + j) % if m(i) == 0 { o.no } else { m(i) }).collect(),
                (0..o.np).map(|i| m(i) % o.no).collect(),
            )
        })
        .collect()
}
