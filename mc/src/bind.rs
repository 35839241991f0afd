//! Conversions between the reference model and the library's own values.
use crate::refm::*;
use cubing::alg::*;
use cubing::kpuzzle::*;
use std::sync::Arc;

pub fn to_pre(p: &RPre) -> Option<MovePrefix> {
    match p {
        RPre::No => None,
        RPre::L(a) => Some(MovePrefix::Layer(MoveLayer { layer: *a })),
        RPre::R(a, b) => {
            Some(MovePrefix::Range(MoveRange { outer_layer: *a, inner_layer: *b }))
        }
    }
}
pub fn to_q(m: &RMove) -> QuantumMove {
    QuantumMove { family: m.fam.clone(), prefix: to_pre(&m.pre) }
}
pub fn to_mv(m: &RMove) -> Move {
    Move { quantum: Arc::new(to_q(m)), amount: m.amt as i32 }
}
pub fn to_node(n: &RN) -> AlgNode {
    match n {
        RN::M(m) => AlgNode::MoveNode(to_mv(m)),
        RN::P => AlgNode::PauseNode(Pause {}),
        RN::N => AlgNode::NewlineNode(Newline {}),
        RN::C(s) => AlgNode::LineCommentNode(LineComment::try_new(s).expect("comment text")),
        RN::G(x, k) => AlgNode::GroupingNode(Grouping { alg: Arc::new(to_alg(x)), amount: *k as i32 }),
        RN::K(a, b) => {
            AlgNode::CommutatorNode(Commutator { a: Arc::new(to_alg(a)), b: Arc::new(to_alg(b)) })
        }
        RN::J(a, b) => {
            AlgNode::ConjugateNode(Conjugate { a: Arc::new(to_alg(a)), b: Arc::new(to_alg(b)) })
        }
    }
}
pub fn to_alg(a: &[RN]) -> Alg {
    Alg { nodes: a.iter().map(to_node).collect() }
}
/// The alg with equal parts shared (one and the same in memory), if there are any.
pub fn share(a: &[RN]) -> Option<Alg> {
    fn alg<'a>(a: &'a [RN], s: &mut Seen<'a>) -> Arc<Alg> {
        if let Some((_, x)) = s.algs.iter().find(|x| x.0 == a) {
            s.any = true;
            return x.clone();
        }
        let x = Arc::new(Alg { nodes: a.iter().map(|n| node(n, s)).collect() });
        s.algs.push((a, x.clone()));
        x
    }
    fn node<'a>(n: &'a RN, s: &mut Seen<'a>) -> AlgNode {
        match n {
            RN::M(m) => {
                let q = match s.moves.iter().find(|x| x.0.fam == m.fam && x.0.pre == m.pre) {
                    Some((_, q)) => {
                        s.any = true;
                        q.clone()
                    }
                    None => {
                        let q = Arc::new(to_q(m));
                        s.moves.push((m, q.clone()));
                        q
                    }
                };
                AlgNode::MoveNode(Move { quantum: q, amount: m.amt as i32 })
            }
            RN::G(x, k) => AlgNode::GroupingNode(Grouping { alg: alg(x, s), amount: *k as i32 }),
            RN::K(x, y) => AlgNode::CommutatorNode(Commutator { a: alg(x, s), b: alg(y, s) }),
            RN::J(x, y) => AlgNode::ConjugateNode(Conjugate { a: alg(x, s), b: alg(y, s) }),
            o => to_node(o),
        }
    }
    #[derive(Default)]
    struct Seen<'a> {
        algs: Vec<(&'a [RN], Arc<Alg>)>,
        moves: Vec<(&'a RMove, Arc<QuantumMove>)>,
        any: bool,
    }
    fn small(a: &[RN]) -> usize {
        a.iter()
            .map(|n| match n {
                RN::G(x, _) => 1 + small(x),
                RN::K(x, y) | RN::J(x, y) => 1 + small(x) + small(y),
                _ => 1,
            })
            .sum()
    }
    if small(a) > 60 {
        return None;
    }
    let mut s = Seen::default();
    let x = Alg { nodes: a.iter().map(|n| node(n, &mut s)).collect() };
    s.any.then_some(x)
}
pub fn from_q(q: &QuantumMove, amt: i64) -> RMove {
    RMove {
        pre: match &q.prefix {
            None => RPre::No,
            Some(MovePrefix::Layer(l)) => RPre::L(l.layer),
            Some(MovePrefix::Range(r)) => RPre::R(r.outer_layer, r.inner_layer),
        },
        fam: q.family.clone(),
        amt,
    }
}
pub fn from_mv(m: &Move) -> RMove {
    from_q(&m.quantum, m.amount as i64)
}
pub fn from_node(n: &AlgNode) -> RN {
    match n {
        AlgNode::MoveNode(m) => RN::M(from_mv(m)),
        AlgNode::PauseNode(_) => RN::P,
        AlgNode::NewlineNode(_) => RN::N,
        AlgNode::LineCommentNode(c) => RN::C(c.text().into()),
        AlgNode::GroupingNode(g) => RN::G(from_alg(&g.alg), g.amount as i64),
        AlgNode::CommutatorNode(c) => RN::K(from_alg(&c.a), from_alg(&c.b)),
        AlgNode::ConjugateNode(c) => RN::J(from_alg(&c.a), from_alg(&c.b)),
    }
}
pub fn from_alg(a: &Alg) -> RAlg {
    a.nodes.iter().map(from_node).collect()
}

pub fn t_data(o: &[ROrbit], t: &RT) -> KTransformationData {
    o.iter()
        .zip(t)
        .map(|(o, (p, d))| {
            (
                KPuzzleOrbitName(o.name.clone()),
                KTransformationOrbitData {
                    permutation: p.iter().map(|x| *x as u8).collect(),
                    orientation_delta: d.iter().map(|x| *x as u8).collect(),
                },
            )
        })
        .collect()
}
pub fn p_data(o: &[ROrbit], p: &RP) -> KPatternData {
    o.iter()
        .zip(p)
        .map(|(o, (p, d, m))| {
            (
                KPuzzleOrbitName(o.name.clone()),
                KPatternOrbitData {
                    pieces: p.clone(),
                    orientation: d.iter().map(|x| *x as u8).collect(),
                    orientation_mod: Some(m.iter().map(|x| *x as u8).collect()),
                },
            )
        })
        .collect()
}
/// Read a transformation through the getters.
pub fn t_read(t: &KTransformation) -> RT {
    t.kpuzzle()
        .orbit_info_iter()
        .map(|o| {
            (
                (0..o.num_pieces).map(|i| t.get_permutation_idx(o, i) as usize).collect(),
                (0..o.num_pieces).map(|i| t.get_orientation_delta(o, i) as usize).collect(),
            )
        })
        .collect()
}
/// Read a pattern through the getters (a modulus equal to the number of orientations reads as 0).
pub fn p_read(p: &KPattern) -> RP {
    p.kpuzzle()
        .orbit_info_iter()
        .map(|o| {
            let mut r = (vec![], vec![], vec![]);
            for i in 0..o.num_pieces {
                r.0.push(p.get_piece(o, i));
                let w = p.get_orientation_with_mod(o, i);
                r.1.push(w.orientation as usize);
                r.2.push(if w.orientation_mod == o.num_orientations {
                    0
                } else {
                    w.orientation_mod as usize
                });
            }
            r
        })
        .collect()
}
pub fn p_canon(o: &[ROrbit], p: &RP) -> RP {
    let mut q = p.clone();
    for (k, o) in o.iter().enumerate() {
        for m in q[k].2.iter_mut() {
            if *m == o.no {
                *m = 0
            }
        }
    }
    q
}
pub fn t_make(k: &KPuzzle, o: &[ROrbit], t: &RT) -> Result<KTransformation, String> {
    KTransformation::try_from_data(k, &t_data(o, t)).map_err(|e| format!("refused {:?}: {}", t, e))
}
pub fn p_make(k: &KPuzzle, o: &[ROrbit], p: &RP) -> Result<KPattern, String> {
    KPattern::try_from_data(k, &p_data(o, p)).map_err(|e| format!("refused {:?}: {}", p, e))
}
pub fn load(p: &RPuz) -> Result<KPuzzle, String> {
    KPuzzle::try_from_json(p.json().as_bytes()).map_err(|e| format!("refused {}: {}", p.name, e))
}
pub fn must<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, want {:?}", what, got, want))
    }
}
pub fn ensure(c: bool, what: impl FnOnce() -> String) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(what())
    }
}
