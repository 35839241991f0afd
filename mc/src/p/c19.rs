//! C19: the built-in cubes against rigid bodies in space.
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use cubing::alg::*;
use cubing::kpuzzle::*;
use cubing::puzzles::{cube2x2x2_kpuzzle, cube3x3x3_kpuzzle};
use std::collections::HashSet;

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        level: "model_checking",
        rule: "An independent model turns layers of rigid cubies in space (integer rotation matrices) and reads off piece positions, twists and center twists. Every move of both puzzles with every amount in a range and extreme amounts, all sequences of moves up to a depth, through transformations and through patterns, are compared with it. Breadth-first search of the reachable positions on the real code: all 3,674,160 positions of the 2x2x2 under <U,R,F> and the 3x3x3 up to a depth, every transition compared with the model, and the number of positions per distance compared with the published ones. states = positions, transitions = moves applied, traces = sequences and edges compared.",
        assumptions: &["piece and orientation numbering is the documented one of the definition files (Reid order; twist = index of the sticker shown on the reference face; center reference directions fixed by y and x)"],
        explore: explore_,
        replay,
        hang_s: 300,
        nshards: 8,
    }
}
type Vc = [i8; 3];
type Mx = [Vc; 3];
const ID: Mx = [[1, 0, 0], [0, 1, 0], [0, 0, 1]];
fn mul(m: &Mx, v: &Vc) -> Vc {
    [0, 1, 2].map(|i| m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2])
}
fn mm(a: &Mx, b: &Mx) -> Mx {
    let mut r = [[0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    r
}
fn cross(a: &Vc, b: &Vc) -> Vc {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: &Vc, b: &Vc) -> i8 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
/// x to the right, y up, z to the front.
fn normal(f: char) -> Vc {
    match f {
        'U' => [0, 1, 0],
        'D' => [0, -1, 0],
        'R' => [1, 0, 0],
        'L' => [-1, 0, 0],
        'F' => [0, 0, 1],
        'B' => [0, 0, -1],
        _ => unreachable!(),
    }
}
/// Quarter turn, clockwise seen from outside along the normal: v -> (v.n)n - n x v for v not along n.
fn quarter(n: &Vc) -> Mx {
    let mut m = [[0; 3]; 3];
    for j in 0..3 {
        let mut e = [0i8; 3];
        e[j] = 1;
        let c = cross(n, &e);
        let d = dot(n, &e);
        for i in 0..3 {
            m[i][j] = d * n[i] - c[i];
        }
    }
    m
}
/// A cubie: home position, current position and orientation.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Cubie {
    home: Vc,
    pos: Vc,
    rot: Mx,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Cube {
    c: Vec<Cubie>,
}
const EDGES: [&str; 12] = ["UF", "UR", "UB", "UL", "DF", "DR", "DB", "DL", "FR", "FL", "BR", "BL"];
const CORNERS: [&str; 8] = ["UFR", "URB", "UBL", "ULF", "DRF", "DFL", "DLB", "DBR"];
const CENTERS: [&str; 6] = ["U", "L", "F", "R", "B", "D"];
/// The direction a center's mark points to when untwisted.
const MARK: [char; 6] = ['B', 'U', 'U', 'U', 'U', 'F'];
fn place(s: &str) -> Vc {
    let mut v = [0; 3];
    for c in s.chars() {
        let n = normal(c);
        for i in 0..3 {
            v[i] += n[i];
        }
    }
    v
}
impl Cube {
    pub fn new(all: bool) -> Cube {
        let mut c = vec![];
        let mut add = |s: &&str| c.push(Cubie { home: place(s), pos: place(s), rot: ID });
        CORNERS.iter().for_each(&mut add);
        if all {
            EDGES.iter().for_each(&mut add);
            CENTERS.iter().for_each(&mut add);
        }
        Cube { c }
    }
    /// Turn the layers whose depth along the face's normal is in the set, q quarter turns.
    pub fn turn(&mut self, face: char, depths: &[i8], q: i64) {
        let n = normal(face);
        let m = quarter(&n);
        for _ in 0..q.rem_euclid(4) {
            for c in self.c.iter_mut() {
                if depths.contains(&dot(&c.pos, &n)) {
                    c.pos = mul(&m, &c.pos);
                    c.rot = mm(&m, &c.rot);
                }
            }
        }
    }
    fn at(&self, p: &Vc) -> &Cubie {
        self.c.iter().find(|c| c.pos == *p).unwrap()
    }
    /// (piece, orientation) per slot of an orbit of edges or corners.
    fn orbit(&self, names: &[&str]) -> (Vec<usize>, Vec<usize>) {
        let mut r = (vec![], vec![]);
        for slot in names {
            let c = self.at(&place(slot));
            let piece = names.iter().position(|p| place(p) == c.home).unwrap();
            // which sticker of the piece shows on the slot's reference face
            let face = normal(slot.chars().next().unwrap());
            let o = names[piece].chars().position(|f| mul(&c.rot, &normal(f)) == face).unwrap();
            r.0.push(piece);
            r.1.push(o);
        }
        r
    }
    fn centers(&self) -> (Vec<usize>, Vec<usize>) {
        let mut r = (vec![], vec![]);
        for (k, slot) in CENTERS.iter().enumerate() {
            let n = normal(slot.chars().next().unwrap());
            let c = self.at(&n);
            let piece = CENTERS.iter().position(|p| place(p) == c.home).unwrap();
            let mark = mul(&c.rot, &normal(MARK[piece]));
            let m = quarter(&n);
            let mut v = normal(MARK[k]);
            let mut o = 0;
            while v != mark {
                v = mul(&m, &v);
                o += 1;
            }
            r.0.push(piece);
            r.1.push(o);
        }
        r
    }
    pub fn read(&self, all: bool) -> RT {
        if all {
            vec![self.orbit(&EDGES), self.orbit(&CORNERS), self.centers()]
        } else {
            vec![self.orbit(&CORNERS)]
        }
    }
}
/// The moves and what they turn: (name, face, depths).
fn moves3() -> Vec<(String, char, Vec<i8>)> {
    let mut v = vec![];
    for f in ['U', 'L', 'F', 'R', 'B', 'D'] {
        v.push((f.to_string(), f, vec![1]));
        v.push((f.to_lowercase().to_string(), f, vec![0, 1]));
        v.push((format!("{}w", f), f, vec![0, 1]));
        v.push((format!("{}v", f), f, vec![-1, 0, 1]));
        v.push((format!("2{}", f), f, vec![0]));
    }
    for (n, f) in [("x", 'R'), ("y", 'U'), ("z", 'F')] {
        v.push((n.into(), f, vec![-1, 0, 1]));
    }
    for (n, f) in [("M", 'L'), ("E", 'D'), ("S", 'F')] {
        v.push((n.into(), f, vec![0]));
    }
    v
}
fn moves2() -> Vec<(String, char, Vec<i8>)> {
    moves3().into_iter().filter(|(n, _, d)| !d.contains(&0) || n.ends_with('v') || "xyz".contains(n.as_str())).collect()
}
struct Pz {
    all: bool,
    k: &'static KPuzzle,
    /// index in the library's orbit list of each model orbit
    ord: Vec<usize>,
    mv: Vec<(String, char, Vec<i8>)>,
}
fn pz(all: bool) -> Result<Pz, String> {
    let k = if all { cube3x3x3_kpuzzle() } else { cube2x2x2_kpuzzle() };
    let want: &[(&str, u8, u8)] = if all { &[("EDGES", 12, 2), ("CORNERS", 8, 3), ("CENTERS", 6, 4)] } else { &[("CORNERS", 8, 3)] };
    let mut ord = vec![];
    for (n, p, o) in want {
        let i = k.orbit_info_iter().position(|x| x.name.0 == *n).ok_or(format!("no orbit {}", n))?;
        let x = &k.data.ordered_orbit_info[i];
        must("pieces", x.num_pieces, *p)?;
        must("orientations", x.num_orientations, *o)?;
        ord.push(i);
    }
    must("orbits", k.orbit_info_iter().len(), want.len())?;
    Ok(Pz { all, k, ord, mv: if all { moves3() } else { moves2() } })
}
impl Pz {
    fn model(&self, seq: &[(usize, i64)]) -> RT {
        let mut c = Cube::new(self.all);
        for (m, a) in seq {
            let (_, f, d) = &self.mv[*m];
            c.turn(*f, d, *a);
        }
        c.read(self.all)
    }
    fn rd_t(&self, t: &KTransformation) -> RT {
        let r = t_read(t);
        self.ord.iter().map(|i| r[*i].clone()).collect()
    }
    fn rd_p(&self, p: &KPattern) -> RT {
        let r = p_read(p);
        self.ord.iter().map(|i| (r[*i].0.iter().map(|x| *x as usize).collect(), r[*i].1.clone())).collect()
    }
    fn text(&self, seq: &[(usize, i64)]) -> String {
        seq.iter()
            .map(|(m, a)| {
                let n = &self.mv[*m].0;
                match a {
                    1 => n.clone(),
                    -1 => format!("{}'", n),
                    a if *a < 0 => format!("{}{}'", n, -a),
                    a => format!("{}{}", n, a),
                }
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
    fn check(&self, seq: &[(usize, i64)]) -> Result<(), String> {
        let text = self.text(seq);
        let want = self.model(seq);
        // solved pieces, twisted centers are invisible
        let mut want_p = want.clone();
        if self.all {
            want_p[2].1 = vec![0; 6];
        }
        let a: Alg = text.parse().map_err(|_| format!("{:?} does not parse", text))?;
        let t = self.k.transformation_from_alg(&a).map_err(|e| format!("{}: {}", text, e))?;
        must("transformation", self.rd_t(&t), want.clone())?;
        let d = self.k.default_pattern();
        must("pattern", self.rd_p(&d.apply_alg(&a).map_err(|e| e.to_string())?), want_p.clone())?;
        let mut p = d.clone();
        let mut u = self.k.identity_transformation();
        for w in text.split(' ') {
            let m: Move = w.parse().map_err(|_| format!("{} does not parse", w))?;
            p = p.apply_move(&m).map_err(|e| e.to_string())?;
            u = u.apply_transformation(&self.k.transformation_from_move(&m).map_err(|e| e.to_string())?);
        }
        must("pattern by moves", self.rd_p(&p), want_p)?;
        must("transformation by moves", self.rd_t(&u), want)?;
        trans(seq.len() as u64);
        trace(1);
        state_of(&text);
        Ok(())
    }
}
fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_add(0x9e3779b97f4a7c15).wrapping_mul(0xbf58476d1ce4e5b9);
    z ^= z >> 29;
    z.wrapping_mul(0x94d049bb133111eb) ^ (z >> 32)
}
fn key(z: &Pz, p: &KPattern) -> u64 {
    let mut h = 0;
    for i in &z.ord {
        let o = &z.k.data.ordered_orbit_info[*i];
        for j in 0..o.num_pieces {
            h = mix(h, (p.get_piece(o, j) as u64) << 8 | p.get_orientation_with_mod(o, j).orientation as u64);
        }
    }
    h
}
/// Breadth-first search on the real code; every transition compared with the model's tables.
fn bfs(z: &Pz, faces: &str, depth: usize) -> Result<Vec<u64>, String> {
    let mut gens = vec![];
    for f in faces.chars() {
        let m = z.mv.iter().position(|x| x.0 == f.to_string()).unwrap();
        for a in [1, 2, -1] {
            let t = z.k.transformation_from_alg(&z.text(&[(m, a)]).parse().unwrap()).map_err(|e| e.to_string())?;
            gens.push((t, z.model(&[(m, a)])));
        }
    }
    let mods: Vec<usize> = if z.all { vec![2, 3, 1] } else { vec![3] };
    let d = z.k.default_pattern();
    let mut seen: HashSet<u64> = HashSet::new();
    seen.insert(key(z, &d));
    state(key(z, &d));
    let mut counts = vec![1u64];
    let mut cur = vec![d];
    while counts.len() <= depth && !cur.is_empty() {
        let mut next = vec![];
        let mut found = 0u64;
        let last = counts.len() == depth;
        for p in &cur {
            for (t, r) in &gens {
                let q = p.apply_transformation(t);
                // compare with the model's step
                for (k, i) in z.ord.iter().enumerate() {
                    let o = &z.k.data.ordered_orbit_info[*i];
                    for j in 0..o.num_pieces {
                        let f = r[k].0[j as usize] as u8;
                        let want = (p.get_orientation_with_mod(o, f).orientation as usize + r[k].1[j as usize]) % mods[k];
                        if q.get_piece(o, j) != p.get_piece(o, f) || q.get_orientation_with_mod(o, j).orientation as usize != want {
                            return Err(format!("a turn of {:?} gives {:?}", p_read(p), p_read(&q)));
                        }
                    }
                }
                let h = key(z, &q);
                if seen.insert(h) {
                    state(h);
                    found += 1;
                    if !last {
                        next.push(q);
                    }
                }
            }
        }
        trans((cur.len() * gens.len()) as u64);
        trace((cur.len() * gens.len()) as u64);
        counts.push(found);
        if last {
            break;
        }
        cur = next;
    }
    while counts.last() == Some(&0) {
        counts.pop();
    }
    Ok(counts)
}
const C2: &[u64] = &[1, 9, 54, 321, 1847, 9992, 50136, 227536, 870072, 1887748, 623800, 2644];
const C3: &[u64] = &[1, 18, 243, 3240, 43239, 574908, 7618438];
fn run_bfs(what: &str) -> Result<(), String> {
    let mut it = what.split(' ');
    let all = it.next() == Some("3x3x3");
    let depth: usize = it.next().unwrap_or("").parse().map_err(|_| "depth")?;
    let z = pz(all)?;
    let want = if all { C3 } else { C2 };
    let got = bfs(&z, if all { "ULFRBD" } else { "URF" }, depth)?;
    must("positions per distance", &got[..], &want[..want.len().min(depth + 1)])
}
fn explore_(cx: &mut Cx) {
    for (k, w) in [format!("2x2x2 {}", 99), format!("3x3x3 {}", if cx.thorough { 6 } else { 5 })].into_iter().enumerate() {
        if cx.shard == k {
            cx.case("breadth-first search", || w.clone(), || run_bfs(&w));
        }
    }
    for all in [true, false] {
        let z = match guarded(|| pz(all)) {
            Ok(z) => z,
            Err(e) => return cx.violate("puzzle", all.to_string(), e),
        };
        let name = if all { "3x3x3" } else { "2x2x2" };
        let solved = || -> Result<(), String> {
            let mut want = z.model(&[]);
            if all {
                want[2].1 = vec![0; 6];
            }
            must("default pattern", z.rd_p(&z.k.default_pattern()), want)?;
            if all {
                let i = z.ord[2];
                must("center moduli", p_read(&z.k.default_pattern())[i].2.clone(), vec![1; 6])?;
            }
            must("identity", z.rd_t(&z.k.identity_transformation()), z.model(&[]))
        };
        cx.case("solved", || name.to_string(), solved);
        let mut amts: Vec<i64> = (-13..=13).collect();
        amts.extend([100, -101, 255, 256, 257, -255, -256, i32::MAX as i64, i32::MAX as i64 - 1, -(i32::MAX as i64), 1 << 30, -(1 << 30)]);
        for m in 0..z.mv.len() {
            for a in &amts {
                if cx.mine() {
                    let s = [(m, *a)];
                    cx.case("amounts", || format!("{} {}", name, z.text(&s)), || z.check(&s));
                }
            }
        }
        let am: &[i64] = &[1, -1, 2];
        let n = z.mv.len() * 3;
        let go = |cx: &mut Cx, idx: &[usize], base: usize| {
            let s: Vec<(usize, i64)> = idx.iter().map(|i| if base == n { (i / 3, am[i % 3]) } else { (*i, 1) }).collect();
            cx.case("sequences", || format!("{} {}", name, z.text(&s)), || z.check(&s));
        };
        seqs(n, 2, &mut |i| {
            if cx.mine() {
                go(cx, i, n)
            }
        });
        if cx.thorough {
            seqs(n, 3, &mut |i| {
                if cx.mine() {
                    go(cx, i, n)
                }
            });
        } else {
            seqs(z.mv.len(), 3, &mut |i| {
                if cx.mine() {
                    go(cx, i, 0)
                }
            });
        }
        if !all {
            seqs(n, if cx.thorough { 4 } else { 3 }, &mut |i| {
                // without the view moves
                if i.iter().all(|i| !z.mv[i / 3].0.ends_with('v')) && (i.len() < 4 || i[0] % 3 == 0) && cx.mine() {
                    go(cx, i, n)
                }
            });
        }
    }
}
fn replay(kind: &str, case: &str) -> Result<(), String> {
    if kind == "breadth-first search" {
        return run_bfs(case);
    }
    let (p, text) = case.split_once(' ').unwrap_or((case, ""));
    let z = pz(p == "3x3x3")?;
    let mut s = vec![];
    for w in text.split(' ').filter(|w| !w.is_empty()) {
        let m = rparse_move(w).ok_or("move")?;
        let one = format!("{}{}", if let RPre::L(l) = m.pre { l.to_string() } else { String::new() }, m.fam);
        s.push((z.mv.iter().position(|x| x.0 == one).ok_or("unknown move")?, m.amt));
    }
    if s.is_empty() {
        return Ok(());
    }
    z.check(&s)
}
