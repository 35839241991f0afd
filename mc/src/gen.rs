//! Exhaustive enumerators.
use crate::refm::*;

/// All algs by size: a leaf costs 1, a grouping 1 + contents, a commutator / conjugate 1 + both halves.
pub struct Gen {
    leaves: Vec<RN>,
    amts: Vec<i64>,
    nodes: Vec<Vec<RN>>,
    lists: Vec<Vec<RAlg>>,
}
impl Gen {
    /// Prepare enumeration of algs up to size `n`.
    pub fn new(leaves: Vec<RN>, amts: Vec<i64>, n: usize) -> Gen {
        let mut g = Gen { leaves, amts, nodes: vec![vec![]], lists: vec![vec![vec![]]] };
        for k in 1..n {
            let mut v = vec![];
            g.each_node(k, &mut |x| v.push(x.clone()));
            g.nodes.push(v);
            let mut v = vec![];
            g.each(k, &mut |x| v.push(x.clone()));
            g.lists.push(v);
        }
        g
    }
    fn each_node(&self, k: usize, f: &mut dyn FnMut(&RN)) {
        if k == 1 {
            for l in &self.leaves {
                f(l);
            }
        }
        for x in &self.lists[k - 1] {
            for a in &self.amts {
                f(&RN::G(x.clone(), *a));
            }
        }
        for i in 0..k {
            for x in &self.lists[i] {
                for y in &self.lists[k - 1 - i] {
                    f(&RN::K(x.clone(), y.clone()));
                    f(&RN::J(x.clone(), y.clone()));
                }
            }
        }
    }
    /// All algs of size exactly n.
    pub fn each(&self, n: usize, f: &mut dyn FnMut(&RAlg)) {
        if n == 0 {
            f(&vec![]);
            return;
        }
        for k in 1..=n {
            let mut one = |x: &RN| {
                for rest in &self.lists[n - k] {
                    let mut v = Vec::with_capacity(1 + rest.len());
                    v.push(x.clone());
                    v.extend(rest.iter().cloned());
                    f(&v);
                }
            };
            if k < self.nodes.len() {
                for x in &self.nodes[k] {
                    one(x);
                }
            } else {
                self.each_node(k, &mut one);
            }
        }
    }
}

/// Towers of brackets around `core`: of each of seven kinds (thrice a grouping, the halves of a
/// commutator and of a conjugate) and of each two of them by turns, each level with and without
/// something beside it, for every depth. `kinds` leaves some out.
pub fn towers(kinds: &[usize], core: &RN, side: &RN, depths: &[usize], f: &mut dyn FnMut(String, RAlg)) {
    for &d in depths {
        for &x in kinds {
            for &y in kinds {
                for beside in 0..3 {
                    let mut a = vec![core.clone()];
                    for i in 0..d {
                        let s = vec![side.clone()];
                        let n = match if i % 2 == 0 { x } else { y } {
                            0 => RN::G(a, 1),
                            1 => RN::G(a, -1),
                            2 => RN::G(a, 2),
                            3 => RN::K(a, s),
                            4 => RN::K(s, a),
                            5 => RN::J(a, s),
                            _ => RN::J(s, a),
                        };
                        a = match beside {
                            0 => vec![n],
                            1 => vec![n, side.clone()],
                            _ => vec![side.clone(), n],
                        };
                    }
                    f(format!("{} {} {} {}", d, x, y, beside), a);
                }
            }
        }
    }
}
/// Depths for `towers`: all small ones, and some near powers of two.
pub fn depths(max: usize) -> Vec<usize> {
    (1..=40).chain([63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 512]).filter(|d| *d <= max).collect()
}
/// All sequences of exactly `n` of the symbols, concatenated.
pub fn strings(syms: &[&str], n: usize, f: &mut dyn FnMut(&str)) {
    let mut ix = vec![0usize; n];
    let mut s = String::new();
    loop {
        s.clear();
        for i in &ix {
            s.push_str(syms[*i]);
        }
        f(&s);
        let mut k = n;
        loop {
            if k == 0 {
                return;
            }
            k -= 1;
            ix[k] += 1;
            if ix[k] < syms.len() {
                break;
            }
            ix[k] = 0;
        }
    }
}
/// All index sequences of length n below `base`.
pub fn seqs(base: usize, n: usize, f: &mut dyn FnMut(&[usize])) {
    if base == 0 && n > 0 {
        return;
    }
    let mut ix = vec![0usize; n];
    loop {
        f(&ix);
        let mut k = n;
        loop {
            if k == 0 {
                return;
            }
            k -= 1;
            ix[k] += 1;
            if ix[k] < base {
                break;
            }
            ix[k] = 0;
        }
    }
}
/// All sequences with per-position bases.
pub fn mixed(bases: &[usize], f: &mut dyn FnMut(&[usize])) {
    if bases.contains(&0) {
        return;
    }
    let mut ix = vec![0usize; bases.len()];
    loop {
        f(&ix);
        let mut k = bases.len();
        loop {
            if k == 0 {
                return;
            }
            k -= 1;
            ix[k] += 1;
            if ix[k] < bases[k] {
                break;
            }
            ix[k] = 0;
        }
    }
}
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}
/// All transformations of an orbit layout.
pub fn all_t(o: &[ROrbit]) -> Vec<RT> {
    let mut out: Vec<RT> = vec![vec![]];
    for ob in o {
        let ps = perms(ob.np);
        let mut os = vec![];
        seqs(ob.no, ob.np, &mut |x| os.push(x.to_vec()));
        let mut nxt = vec![];
        for t in &out {
            for p in &ps {
                for d in &os {
                    let mut t2 = t.clone();
                    t2.push((p.clone(), d.clone()));
                    nxt.push(t2);
                }
            }
        }
        out = nxt;
    }
    out
}
pub fn divisors(n: usize) -> Vec<usize> {
    (1..=n).filter(|d| n % d == 0).collect()
}
/// All (orientation, modulus) pairs with the full modulus written as 0.
pub fn all_om(no: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for m in divisors(no) {
        for x in 0..m {
            v.push((x, if m == no { 0 } else { m }));
        }
    }
    v
}
/// All patterns with pieces drawn from `0..pv`.
pub fn all_p(o: &[ROrbit], pv: usize) -> Vec<RP> {
    let mut out: Vec<RP> = vec![vec![]];
    for ob in o {
        let om = all_om(ob.no);
        let mut ps = vec![];
        seqs(pv.min(ob.np.max(1)), ob.np, &mut |x| ps.push(x.to_vec()));
        let mut os = vec![];
        seqs(om.len(), ob.np, &mut |x| os.push(x.to_vec()));
        let mut nxt = vec![];
        for t in &out {
            for p in &ps {
                for d in &os {
                    let mut t2 = t.clone();
                    t2.push((
                        p.iter().map(|x| *x as u8).collect(),
                        d.iter().map(|x| om[*x].0).collect(),
                        d.iter().map(|x| om[*x].1).collect(),
                    ));
                    nxt.push(t2);
                }
            }
        }
        out = nxt;
    }
    out
}
pub fn orb(v: &[(usize, usize)]) -> Vec<ROrbit> {
    v.iter()
        .enumerate()
        .map(|(i, (p, o))| ROrbit { name: format!("O{}", i), np: *p, no: *o })
        .collect()
}
