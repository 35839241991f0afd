//! The reference model: an independent AST, parser, inverter, expander and puzzle semantics.
//! Nothing here calls the library, except the conversions at the bottom.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum RPre {
    No,
    L(u32),
    R(u32, u32),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RMove {
    pub pre: RPre,
    pub fam: String,
    pub amt: i64,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RN {
    M(RMove),
    P,
    N,
    C(String),
    G(Vec<RN>, i64),
    K(Vec<RN>, Vec<RN>),
    J(Vec<RN>, Vec<RN>),
}
pub type RAlg = Vec<RN>;

pub fn mv(fam: &str, amt: i64) -> RMove {
    RMove { pre: RPre::No, fam: fam.into(), amt }
}

// ---------------------------------------------------------------- notation
struct Ps<'a> {
    s: &'a [u8],
    src: &'a str,
    i: usize,
}
impl<'a> Ps<'a> {
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn at(&self, k: usize) -> Option<u8> {
        self.s.get(self.i + k).copied()
    }
    fn digits(&mut self) -> Option<&'a str> {
        let st = self.i;
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.i += 1;
        }
        if st == self.i {
            None
        } else {
            Some(&self.src[st..self.i])
        }
    }
    /// A run of digits that must fit below `max`.
    fn num(&mut self, max: u64) -> Result<Option<i64>, ()> {
        match self.digits() {
            None => Ok(None),
            Some(d) => {
                let mut v: u64 = 0;
                for b in d.bytes() {
                    v = v * 10 + (b - b'0') as u64;
                    if v > max {
                        return Err(());
                    }
                }
                Ok(Some(v as i64))
            }
        }
    }
    fn suffix(&mut self) -> Result<i64, ()> {
        let n = self.num(i32::MAX as u64)?.unwrap_or(1);
        if self.peek() == Some(b'\'') {
            self.i += 1;
            Ok(-n)
        } else {
            Ok(n)
        }
    }
    fn quantum(&mut self) -> Result<RMove, ()> {
        let mut pre = RPre::No;
        if matches!(self.peek(), Some(b'0'..=b'9')) {
            let a = self.num(u32::MAX as u64)?.unwrap() as u32;
            pre = RPre::L(a);
            if self.peek() == Some(b'-') {
                self.i += 1;
                let b = self.num(u32::MAX as u64)?.ok_or(())? as u32;
                pre = RPre::R(a, b);
            }
        }
        let st = self.i;
        while matches!(self.peek(), Some(b'a'..=b'z' | b'A'..=b'Z' | b'_')) {
            self.i += 1;
        }
        if st == self.i {
            return Err(());
        }
        Ok(RMove { pre, fam: self.src[st..self.i].into(), amt: 1 })
    }
    fn mv(&mut self) -> Result<RMove, ()> {
        if self.peek() == Some(b'/') {
            self.i += 1;
            return Ok(mv("_SLASH_", 1));
        }
        let mut m = self.quantum()?;
        match (self.peek(), self.at(1)) {
            (Some(b'+'), Some(b'+')) => {
                self.i += 2;
                m.fam.push_str("_PLUSPLUS_");
                return Ok(m);
            }
            (Some(b'-'), Some(b'-')) => {
                self.i += 2;
                m.fam.push_str("_PLUSPLUS_");
                m.amt = -1;
                return Ok(m);
            }
            _ => {}
        }
        let n = self.num(i32::MAX as u64)?;
        if let Some(n) = n {
            match self.peek() {
                Some(b'+') => {
                    self.i += 1;
                    m.fam.push_str("_PLUS_");
                    m.amt = n;
                    return Ok(m);
                }
                Some(b'-') => {
                    self.i += 1;
                    m.fam.push_str("_PLUS_");
                    m.amt = -n;
                    return Ok(m);
                }
                _ => {}
            }
        }
        m.amt = n.unwrap_or(1);
        if self.peek() == Some(b'\'') {
            self.i += 1;
            m.amt = -m.amt;
        }
        Ok(m)
    }
    fn tuple(&mut self) -> Option<Result<RN, ()>> {
        // after '('
        let save = self.i;
        let mut vals: Vec<Result<i64, ()>> = vec![];
        for k in 0..2 {
            let mut sg = 1;
            if self.peek() == Some(b'-') {
                self.i += 1;
                sg = -1;
            }
            match self.num(i32::MAX as u64) {
                Ok(None) => {
                    self.i = save;
                    return None;
                }
                Ok(Some(v)) => vals.push(Ok(sg * v)),
                Err(()) => vals.push(Err(())),
            }
            if k == 0 {
                if self.peek() == Some(b',') && self.at(1) == Some(b' ') {
                    self.i += 2;
                } else {
                    self.i = save;
                    return None;
                }
            } else if self.peek() == Some(b')') {
                self.i += 1;
            } else {
                self.i = save;
                return None;
            }
        }
        let b = vals.pop().unwrap();
        let a = vals.pop().unwrap();
        Some(match (a, b) {
            (Ok(a), Ok(b)) => Ok(RN::G(vec![RN::M(mv("U_SQ_", a)), RN::M(mv("D_SQ_", b))], 1)),
            _ => Err(()),
        })
    }
    /// Nodes up to a byte in `)],:` or the end.
    fn alg(&mut self) -> Result<RAlg, ()> {
        let mut out: RAlg = vec![];
        loop {
            let mut spaced = false;
            while self.peek() == Some(b' ') {
                self.i += 1;
                spaced = true;
            }
            let c = match self.peek() {
                None => return Ok(out),
                Some(b')' | b']' | b',' | b':') => return Ok(out),
                Some(c) => c,
            };
            let node = if c == b'\n' {
                self.i += 1;
                RN::N
            } else {
                if !spaced && !matches!(out.last(), None | Some(RN::N) | Some(RN::C(_))) {
                    return Err(());
                }
                match c {
                    b'.' => {
                        self.i += 1;
                        RN::P
                    }
                    b'/' if self.at(1) == Some(b'/') => {
                        self.i += 2;
                        let st = self.i;
                        while self.peek().is_some() && self.peek() != Some(b'\n') {
                            self.i += 1;
                        }
                        RN::C(self.src[st..self.i].into())
                    }
                    b'(' => {
                        self.i += 1;
                        match self.tuple() {
                            Some(r) => r?,
                            None => {
                                let a = self.alg()?;
                                if self.peek() != Some(b')') {
                                    return Err(());
                                }
                                self.i += 1;
                                RN::G(a, self.suffix()?)
                            }
                        }
                    }
                    b'[' => {
                        self.i += 1;
                        let a = self.alg()?;
                        let sep = self.peek();
                        if sep != Some(b',') && sep != Some(b':') {
                            return Err(());
                        }
                        self.i += 1;
                        let b = self.alg()?;
                        if self.peek() != Some(b']') {
                            return Err(());
                        }
                        self.i += 1;
                        let n = if sep == Some(b',') { RN::K(a, b) } else { RN::J(a, b) };
                        match self.suffix()? {
                            1 => n,
                            k => RN::G(vec![n], k),
                        }
                    }
                    _ => RN::M(self.mv()?),
                }
            };
            out.push(node);
        }
    }
}
fn ps(s: &str) -> Ps<'_> {
    Ps { s: s.as_bytes(), src: s, i: 0 }
}
pub fn rparse(s: &str) -> Option<RAlg> {
    let mut p = ps(s);
    match p.alg() {
        Ok(a) if p.i == s.len() => Some(a),
        _ => None,
    }
}
pub fn rparse_move(s: &str) -> Option<RMove> {
    let mut p = ps(s);
    match p.mv() {
        Ok(a) if p.i == s.len() => Some(a),
        _ => None,
    }
}
pub fn rparse_quantum(s: &str) -> Option<RMove> {
    let mut p = ps(s);
    match p.quantum() {
        Ok(a) if p.i == s.len() => Some(a),
        _ => None,
    }
}

// ---------------------------------------------------------------- normal form for round trips
/// The only differences printing may introduce: a newline after a line comment that is followed
/// by something else than a newline (or by a closing delimiter), and dropped parentheses (without
/// an amount) around a lone commutator or conjugate.
pub fn norm(a: &[RN], nested: bool) -> RAlg {
    let mut out = vec![];
    for (i, n) in a.iter().enumerate() {
        let n2 = match n {
            RN::G(x, k) => {
                let x2 = norm(x, true);
                if *k == 1 && x2.len() == 1 && matches!(x2[0], RN::K(..) | RN::J(..)) {
                    x2.into_iter().next().unwrap()
                } else {
                    RN::G(x2, *k)
                }
            }
            RN::K(x, y) => RN::K(norm(x, true), norm(y, true)),
            RN::J(x, y) => RN::J(norm(x, true), norm(y, true)),
            o => o.clone(),
        };
        let is_c = matches!(n2, RN::C(_));
        out.push(n2);
        if is_c {
            match a.get(i + 1) {
                Some(RN::N) => {}
                None if !nested => {}
                _ => out.push(RN::N),
            }
        }
    }
    out
}

// ---------------------------------------------------------------- inversion
pub fn is_tuple(x: &[RN], k: i64) -> bool {
    k == 1
        && x.len() == 2
        && matches!(&x[0], RN::M(m) if m.fam == "U_SQ_" && m.pre == RPre::No)
        && matches!(&x[1], RN::M(m) if m.fam == "D_SQ_" && m.pre == RPre::No)
}
pub fn rinv_move(m: &RMove) -> RMove {
    if m.fam == "_SLASH_" && m.pre == RPre::No {
        m.clone()
    } else {
        RMove { amt: -m.amt, ..m.clone() }
    }
}
pub fn rinv_node(n: &RN) -> RN {
    match n {
        RN::M(m) => RN::M(rinv_move(m)),
        RN::G(x, k) if is_tuple(x, *k) => RN::G(x.iter().map(rinv_node).collect(), 1),
        RN::G(x, k) => RN::G(x.clone(), -k),
        RN::K(a, b) => RN::K(b.clone(), a.clone()),
        RN::J(a, b) => RN::J(a.clone(), rinv(b)),
        o => o.clone(),
    }
}
pub fn rinv(a: &[RN]) -> RAlg {
    a.iter().rev().map(rinv_node).collect()
}

// ---------------------------------------------------------------- expansion
/// Expand to the flat move list; `inv` expands the inverse. Returns false when over `cap`.
pub fn expand(a: &[RN], inv: bool, cap: usize, out: &mut Vec<RMove>) -> bool {
    let go = |n: &RN, out: &mut Vec<RMove>| -> bool {
        match n {
            RN::M(m) => {
                out.push(if inv { RMove { amt: -m.amt, ..m.clone() } } else { m.clone() });
            }
            RN::G(x, k) => {
                let rev = (*k < 0) != inv;
                for _ in 0..k.unsigned_abs() {
                    let before = out.len();
                    if !expand(x, rev, cap, out) {
                        return false;
                    }
                    if out.len() == before {
                        break; // nothing to repeat
                    }
                }
            }
            RN::K(x, y) => {
                let (x, y) = if inv { (y, x) } else { (x, y) };
                return expand(x, false, cap, out)
                    && expand(y, false, cap, out)
                    && expand(x, true, cap, out)
                    && expand(y, true, cap, out);
            }
            RN::J(x, y) => {
                return expand(x, false, cap, out)
                    && expand(y, inv, cap, out)
                    && expand(x, true, cap, out);
            }
            _ => {}
        }
        out.len() <= cap
    };
    if inv {
        a.iter().rev().all(|n| go(n, out))
    } else {
        a.iter().all(|n| go(n, out))
    }
}
pub fn moves_in<'a>(a: &'a [RN], out: &mut Vec<&'a RMove>) {
    for n in a {
        match n {
            RN::M(m) => out.push(m),
            RN::G(x, _) => moves_in(x, out),
            RN::K(x, y) | RN::J(x, y) => {
                moves_in(x, out);
                moves_in(y, out);
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- puzzles
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ROrbit {
    pub name: String,
    pub np: usize,
    pub no: usize,
}
/// A transformation: per orbit a permutation and twists.
pub type RT = Vec<(Vec<usize>, Vec<usize>)>;
/// A pattern: per orbit pieces, orientations and moduli (0 = full).
pub type RP = Vec<(Vec<u8>, Vec<usize>, Vec<usize>)>;

pub fn rid(o: &[ROrbit]) -> RT {
    o.iter().map(|o| ((0..o.np).collect(), vec![0; o.np])).collect()
}
/// a then b
pub fn rcomp(o: &[ROrbit], a: &RT, b: &RT) -> RT {
    o.iter()
        .enumerate()
        .map(|(k, o)| {
            let (ap, ao) = &a[k];
            let (bp, bo) = &b[k];
            (
                (0..o.np).map(|i| ap[bp[i]]).collect(),
                (0..o.np).map(|i| (ao[bp[i]] + bo[i]) % o.no).collect(),
            )
        })
        .collect()
}
pub fn rtinv(o: &[ROrbit], a: &RT) -> RT {
    o.iter()
        .enumerate()
        .map(|(k, o)| {
            let mut p = vec![0; o.np];
            let mut t = vec![0; o.np];
            for i in 0..o.np {
                p[a[k].0[i]] = i;
                t[a[k].0[i]] = (o.no - a[k].1[i]) % o.no;
            }
            (p, t)
        })
        .collect()
}
/// Power by reducing the exponent modulo the order, found by iteration.
/// The same by following each place along its cycle; for any order.
pub fn rpow_cycles(o: &[ROrbit], a: &RT, n: i64) -> RT {
    o.iter()
        .zip(a)
        .map(|(o, (p, d))| {
            let mut r = (vec![], vec![]);
            for i in 0..o.np {
                let (mut path, mut sums) = (vec![i], vec![0usize]);
                loop {
                    let at = *path.last().unwrap();
                    let s = sums.last().unwrap() + d[at];
                    sums.push(s);
                    if p[at] == i {
                        break;
                    }
                    path.push(p[at]);
                }
                let l = path.len();
                let steps = n.rem_euclid((l * o.no) as i64) as usize;
                r.0.push(path[steps % l]);
                r.1.push((steps / l * sums[l] + sums[steps % l]) % o.no);
            }
            r
        })
        .collect()
}
pub fn rpow(o: &[ROrbit], a: &RT, n: i64) -> RT {
    let id = rid(o);
    let mut ord = 1i64;
    let mut t = a.clone();
    while t != id {
        t = rcomp(o, &t, a);
        ord += 1;
        assert!(ord < 2_000_000);
    }
    let k = n.rem_euclid(ord);
    let mut t = id;
    for _ in 0..k {
        t = rcomp(o, &t, a);
    }
    t
}
pub fn rapply(o: &[ROrbit], p: &RP, t: &RT) -> RP {
    o.iter()
        .enumerate()
        .map(|(k, o)| {
            let (pp, po, pm) = &p[k];
            let (tp, to) = &t[k];
            let mut q = (vec![], vec![], vec![]);
            for i in 0..o.np {
                let f = tp[i];
                let m = if pm[f] == 0 { o.no } else { pm[f] };
                q.0.push(pp[f]);
                q.1.push((po[f] + to[i]) % m);
                q.2.push(pm[f]);
            }
            q
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct RPuz {
    pub name: String,
    pub orbits: Vec<ROrbit>,
    pub default: RP,
    pub moves: Vec<(RMove, RT)>,
    pub derived: Vec<(RMove, RAlg)>,
    pub derived_src: Vec<(String, String)>,
    pub move_src: Vec<String>,
    idx: HashMap<RMove, usize>,
    didx: HashMap<RMove, usize>,
    memo: std::cell::RefCell<HashMap<RMove, Option<RT>>>,
}
pub struct PSpec<'a> {
    pub name: &'a str,
    pub orbits: Vec<(&'a str, usize, usize)>,
    pub default: Option<RP>,
    pub moves: Vec<(&'a str, RT)>,
    pub derived: Vec<(&'a str, &'a str)>,
}
impl RPuz {
    pub fn new(s: PSpec) -> RPuz {
        let orbits: Vec<ROrbit> = s
            .orbits
            .iter()
            .map(|(n, p, o)| ROrbit { name: n.to_string(), np: *p, no: *o })
            .collect();
        let default = s.default.unwrap_or_else(|| rsolved(&orbits));
        let moves: Vec<(RMove, RT)> =
            s.moves.iter().map(|(m, t)| (rparse_move(m).unwrap(), t.clone())).collect();
        let derived: Vec<(RMove, RAlg)> = s
            .derived
            .iter()
            .map(|(m, a)| (rparse_move(m).unwrap(), rparse(a).unwrap()))
            .collect();
        RPuz {
            name: s.name.into(),
            idx: moves.iter().enumerate().map(|(i, m)| (m.0.clone(), i)).collect(),
            didx: derived.iter().enumerate().map(|(i, m)| (m.0.clone(), i)).collect(),
            orbits,
            default,
            moves,
            derived_src: s.derived.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
            move_src: s.moves.iter().map(|m| m.0.to_string()).collect(),
            derived,
            memo: Default::default(),
        }
    }
    /// (source, relative amount): Ok(index of direct) / Err(index of derived)
    pub fn lookup(&self, m: &RMove) -> Option<(Result<usize, usize>, i64)> {
        let one = RMove { amt: 1, ..m.clone() };
        let inv = RMove { amt: -m.amt, ..m.clone() };
        for (key, rel) in [(&one, m.amt), (m, 1), (&inv, -1)] {
            if let Some(i) = self.idx.get(key) {
                return Some((Ok(*i), rel));
            }
            if let Some(i) = self.didx.get(key) {
                return Some((Err(*i), rel));
            }
        }
        None
    }
    pub fn mv(&self, m: &RMove) -> Option<RT> {
        if let Some(r) = self.memo.borrow().get(m) {
            return r.clone();
        }
        let r = match self.lookup(m) {
            None => None,
            Some((Ok(i), rel)) => Some(rpow(&self.orbits, &self.moves[i].1, rel)),
            Some((Err(i), rel)) => {
                self.alg(&self.derived[i].1.clone()).map(|t| rpow(&self.orbits, &t, rel))
            }
        };
        self.memo.borrow_mut().insert(m.clone(), r.clone());
        r
    }
    /// Structural evaluation. Independent of the library's: inverses are taken on transformations,
    /// powers by order reduction. None when any move at any depth does not exist.
    pub fn alg(&self, a: &[RN]) -> Option<RT> {
        let o = &self.orbits;
        let mut t = rid(o);
        for n in a {
            let x = match n {
                RN::M(m) => self.mv(m)?,
                RN::G(x, k) => rpow(o, &self.alg(x)?, *k),
                RN::K(x, y) => {
                    let x = self.alg(x)?;
                    let y = self.alg(y)?;
                    rcomp(o, &rcomp(o, &rcomp(o, &x, &y), &rtinv(o, &x)), &rtinv(o, &y))
                }
                RN::J(x, y) => {
                    let x = self.alg(x)?;
                    let y = self.alg(y)?;
                    rcomp(o, &rcomp(o, &x, &y), &rtinv(o, &x))
                }
                _ => continue,
            };
            t = rcomp(o, &t, &x);
        }
        Some(t)
    }
    pub fn json(&self) -> String {
        let orbits: Vec<String> = self
            .orbits
            .iter()
            .map(|o| {
                format!(
                    r#"{{"orbitName":{},"numPieces":{},"numOrientations":{}}}"#,
                    serde_json::to_string(&o.name).unwrap(),
                    o.np,
                    o.no
                )
            })
            .collect();
        let moves: Vec<String> = self
            .moves
            .iter()
            .zip(&self.move_src)
            .map(|((_, t), s)| {
                format!("{}:{}", serde_json::to_string(s).unwrap(), rt_json(&self.orbits, t))
            })
            .collect();
        let derived: Vec<String> = self
            .derived_src
            .iter()
            .map(|(a, b)| {
                format!(
                    "{}:{}",
                    serde_json::to_string(a).unwrap(),
                    serde_json::to_string(b).unwrap()
                )
            })
            .collect();
        let mut s = format!(
            r#"{{"name":{},"orbits":[{}],"defaultPattern":{},"moves":{{{}}}"#,
            serde_json::to_string(&self.name).unwrap(),
            orbits.join(","),
            rp_json(&self.orbits, &self.default),
            moves.join(",")
        );
        if !derived.is_empty() {
            s.push_str(&format!(r#","derivedMoves":{{{}}}"#, derived.join(",")));
        }
        s.push('}');
        s
    }
}
pub fn rsolved(o: &[ROrbit]) -> RP {
    o.iter().map(|o| ((0..o.np).map(|x| x as u8).collect(), vec![0; o.np], vec![0; o.np])).collect()
}
pub fn rt_json(o: &[ROrbit], t: &RT) -> String {
    let v: Vec<String> = o
        .iter()
        .zip(t)
        .map(|(o, (p, d))| {
            format!(
                r#"{}:{{"permutation":{:?},"orientationDelta":{:?}}}"#,
                serde_json::to_string(&o.name).unwrap(),
                p,
                d
            )
        })
        .collect();
    format!("{{{}}}", v.join(","))
}
pub fn rp_json(o: &[ROrbit], p: &RP) -> String {
    let v: Vec<String> = o
        .iter()
        .zip(p)
        .map(|(o, (p, d, m))| {
            format!(
                r#"{}:{{"pieces":{:?},"orientation":{:?},"orientationMod":{:?}}}"#,
                serde_json::to_string(&o.name).unwrap(),
                p,
                d,
                m
            )
        })
        .collect();
    format!("{{{}}}", v.join(","))
}
