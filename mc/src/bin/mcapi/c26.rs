//! C26: values built from parts are the values their notation gives.
use mc::bind::*;
use mc::engine::*;
use mc::gen::*;
use mc::refm::*;
use cubing::alg::*;
use cubing::kpuzzle::*;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        level: "model_checking",
        rule: "Every layer number of a menu and every pair of them, with every family and amount of a menu, built through every constructor and conversion there is and compared with each other, with the text and with what parsing the text gives; every sequence of nodes up to a length, each node converted in every way, as an alg and as the contents of brackets; every tree of nodes up to a size, every node of it converted and pushed in every way, read back part by part and compared with every tree that differs in one part; every comment text up to a length; every orbit name and error description of a menu; every default orientation. states = distinct texts, transitions = constructions, traces = comparisons with the notation.",
        assumptions: &["amounts other than i32::MIN, families of letters and underscores"],
        explore,
        replay,
        hang_s: 30,
        nshards: 8,
    }
}
const LAYERS: [u32; 12] = [0, 1, 2, 3, 9, 10, 127, 128, 255, 256, 65536, u32::MAX];
const FAMS: [&str; 14] = ["R", "r", "Rw", "x", "_", "_a", "BOB", "R_PLUS", "_SLASH", "SLASH_", "U_SQ", "PLUSPLUS_", "UR", "dwrap_a"];
const AMTS: [i32; 13] = [0, 1, -1, 2, -2, 3, -3, 10, -10, 255, 256, i32::MAX, -i32::MAX];
/// Puzzle-specific suffixes: text of the suffix, internal family suffix, amount.
const SUFF: [(&str, &str, i32); 8] = [("++", "_PLUSPLUS_", 1), ("--", "_PLUSPLUS_", -1), ("3+", "_PLUS_", 3), ("3-", "_PLUS_", -3), ("0+", "_PLUS_", 0), ("1+", "_PLUS_", 1), ("1-", "_PLUS_", -1), ("2147483647-", "_PLUS_", -i32::MAX)];

/// Text, and the prefix built in every way.
fn prefixes() -> Vec<(String, Vec<Option<MovePrefix>>)> {
    let mut v: Vec<(String, Vec<Option<MovePrefix>>)> = vec![(String::new(), vec![None])];
    for &a in &LAYERS {
        let l = MoveLayer { layer: a };
        v.push((
            a.to_string(),
            vec![
                Some(MovePrefix::Layer(l.clone())),
                Some(MovePrefix::Layer(MoveLayer::new(a))),
                Some(MovePrefix::Layer(a.into())),
                Some(MovePrefix::from(a)),
                Some(MovePrefix::from(l.clone())),
                Some(MoveLayer::from(a).into()),
                l.clone().into(),
                MoveLayer::new(a).into(),
                Option::<MovePrefix>::from(l.clone()),
                Some(l.clone().into()),
            ],
        ));
        for &b in &LAYERS {
            let r = MoveRange { outer_layer: a, inner_layer: b };
            v.push((
                format!("{}-{}", a, b),
                vec![
                    Some(MovePrefix::Range(r.clone())),
                    Some(MovePrefix::Range(MoveRange::new(a, b))),
                    Some(MovePrefix::Range((a, b).into())),
                    Some(MovePrefix::from((a, b))),
                    Some(MovePrefix::from(r.clone())),
                    Some(MoveRange::from((a, b)).into()),
                    r.clone().into(),
                    MoveRange::new(a, b).into(),
                    Option::<MovePrefix>::from(r.clone()),
                    Some(r.clone().into()),
                ],
            ));
        }
    }
    v
}
fn same<T: PartialEq + std::fmt::Debug + std::hash::Hash>(what: &str, x: &T, y: &T) -> Result<(), String> {
    trace(1);
    ensure(x == y && y == x && !(x != y), || format!("{}: {:?} is not {:?}", what, x, y))?;
    ensure(hash_of(x) == hash_of(y), || format!("{}: hashes of {:?} differ", what, x))
}
fn shown<T: std::fmt::Display>(x: &T, want: &str) -> Result<(), String> {
    let s = x.to_string();
    ensure(s == want, || format!("printed as {:?}, want {:?}", s, want))?;
    let s = format!("{}{}", x, x);
    ensure(s == format!("{0}{0}", want), || format!("printed twice as {:?}", s))
}
fn prefix(i: usize) -> Result<(), String> {
    let all = prefixes();
    let (text, ways) = &all[i];
    state_of(text);
    let first = &ways[0];
    for w in ways {
        trans(1);
        same("prefix", w, first)?;
        if let Some(w) = w {
            shown(w, text)?;
            match w {
                MovePrefix::Layer(l) => shown(l, text)?,
                MovePrefix::Range(r) => shown(r, text)?,
            }
        }
        // distinct from every other prefix
        for (t, o) in &all {
            if t != text {
                ensure(o[0] != *w && *w != o[0], || format!("the prefixes {:?} and {:?} are equal", t, text))?;
            }
        }
        for fam in FAMS {
            let q = quantum(text, w, fam)?;
            for amount in AMTS {
                one_move(&q, amount, &format!("{}{}{}", text, fam, amount_text(amount)))?;
            }
            for (suffix, internal, amount) in SUFF {
                let name = format!("{}{}", fam, internal);
                let q = quantum(text, w, &name)?;
                one_move(&q, amount, &format!("{}{}{}", text, fam, suffix))?;
            }
        }
    }
    if i == 0 {
        let q = quantum("", &None, "_SLASH_")?;
        one_move(&q, 1, "/")?;
    }
    Ok(())
}
fn amount_text(a: i32) -> String {
    match a {
        1 => String::new(),
        -1 => "'".into(),
        a if a < 0 => format!("{}'", -(a as i64)),
        a => a.to_string(),
    }
}
fn quantum(text: &str, pre: &Option<MovePrefix>, fam: &str) -> Result<QuantumMove, String> {
    let q = QuantumMove { family: fam.to_owned(), prefix: pre.clone() };
    let text = format!("{}{}", text, fam);
    trans(3);
    for other in [
        QuantumMove::new(fam, pre.clone()),
        QuantumMove::new(fam.to_string(), pre.clone()),
        text.parse().map_err(|e: AlgParseError| e.description)?,
        QuantumMove::try_from(text.as_str()).map_err(|e| e.description)?,
    ] {
        same("quantum move", &other, &q)?;
        shown(&other, &text)?;
    }
    must("family", q.family.as_str(), fam)?;
    Ok(q)
}
fn one_move(q: &QuantumMove, amount: i32, text: &str) -> Result<(), String> {
    state_of(text);
    trans(1);
    let m = Move { quantum: Arc::new(q.clone()), amount };
    let by_into = Move { quantum: q.clone().into(), amount };
    let parsed: Move = text.parse().map_err(|e: AlgParseError| format!("{}: {}", text, e))?;
    let tried = Move::try_from(text).map_err(|e| format!("{}: {}", text, e))?;
    for x in [&by_into, &parsed, &tried] {
        same("move", x, &m)?;
    }
    shown(&m, text)?;
    let nodes = [AlgNode::MoveNode(m.clone()), AlgNode::from(m.clone()), m.clone().into(), by_into.into()];
    let a = Alg::try_from(text).map_err(|e| format!("{}: {}", text, e))?;
    for n in nodes {
        must("as an alg", &Alg { nodes: vec![n.clone()] }, &a)?;
        shown(&n, text)?;
    }
    Ok(())
}
const KINDS: usize = 16;
/// A node made by hand: its text, and the node in every way.
fn node(k: usize) -> Result<(String, Vec<AlgNode>), String> {
    let r = Move { quantum: QuantumMove::new("R", None).into(), amount: 1 };
    let u = Move { quantum: QuantumMove::new("Uw", Some(2.into())).into(), amount: -3 };
    let alg = |v: Vec<AlgNode>| -> Alg { Alg { nodes: v } };
    let ru = || alg(vec![r.clone().into(), u.clone().into()]);
    let sq = |a: i32, b: i32| {
        let q = |f: &str, amount| -> AlgNode { Move { quantum: QuantumMove::new(f, None).into(), amount }.into() };
        alg(vec![q("U_SQ_", a), q("D_SQ_", b)])
    };
    let g = |a: Alg, amount: i32| Grouping { alg: a.into(), amount };
    macro_rules! ways {
        ($variant:ident, $x:expr) => {{
            let x = $x;
            shown(&x, &x.to_string())?;
            vec![AlgNode::$variant(x.clone()), AlgNode::from(x.clone()), x.clone().into(), { let n: AlgNode = x.into(); n.clone() }]
        }};
    }
    let com = |a: Alg, b: Alg| Commutator { a: a.into(), b: b.into() };
    let con = |a: Alg, b: Alg| Conjugate { a: a.into(), b: b.into() };
    Ok(match k {
        0 => ("R".into(), ways!(MoveNode, r.clone())),
        1 => ("2Uw3'".into(), ways!(MoveNode, u.clone())),
        2 => (".".into(), ways!(PauseNode, Pause {})),
        3 => (".".into(), ways!(PauseNode, Pause::default())),
        4 => ("\n".into(), ways!(NewlineNode, Newline {})),
        5 => ("\n".into(), ways!(NewlineNode, Newline::default())),
        6 => ("// a (b".into(), ways!(LineCommentNode, LineComment::try_new(" a (b")?)),
        7 => ("//".into(), ways!(LineCommentNode, LineComment::default())),
        8 => ("(R 2Uw3')2'".into(), ways!(GroupingNode, g(ru(), -2))),
        9 => ("()0".into(), ways!(GroupingNode, g(Alg::default(), 0))),
        10 => ("(1, -2)".into(), ways!(GroupingNode, g(sq(1, -2), 1))),
        11 => ("[R 2Uw3', ]".into(), ways!(CommutatorNode, com(ru(), Alg::default()))),
        12 => ("[R: R 2Uw3']".into(), ways!(ConjugateNode, con(alg(vec![r.clone().into()]), ru()))),
        13 => ("[R: R 2Uw3']3".into(), ways!(GroupingNode, g(alg(vec![con(alg(vec![r.clone().into()]), ru()).into()]), 3))),
        14 => ("[(0, 7), R]'".into(), ways!(GroupingNode, g(alg(vec![com(alg(vec![g(sq(0, 7), 1).into()]), alg(vec![r.clone().into()])).into()]), -1))),
        _ => ("((R 2Uw3'))".into(), ways!(GroupingNode, g(alg(vec![g(ru(), 1).into()]), 1))),
    })
}
fn nodes(ix: &[usize]) -> Result<(), String> {
    let made: Vec<(String, Vec<AlgNode>)> = ix.iter().map(|k| node(*k)).collect::<Result<_, _>>()?;
    let mut text = String::new();
    for (i, (t, _)) in made.iter().enumerate() {
        if i > 0 {
            let before = &made[i - 1].0;
            if before.starts_with("//") && t != "\n" {
                // a comment is ended by a newline of its own
                return Ok(());
            }
            if before != "\n" && t != "\n" {
                text.push(' ');
            }
        }
        text.push_str(t);
    }
    state_of(&text);
    let want: Alg = text.parse().map_err(|_| format!("{:?} does not parse", text))?;
    for way in 0..4 {
        trans(1);
        trace(1);
        let a = Alg { nodes: made.iter().map(|m| m.1[way].clone()).collect() };
        must("alg", &a, &want)?;
        shown(&a, &text)?;
        let mut b = AlgBuilder::default();
        for n in &a.nodes {
            b.push(n);
        }
        must("built", &b.to_alg(), &want)?;
    }
    for (i, m) in made.iter().enumerate() {
        for n in &m.1 {
            must("node", n, &want.nodes[i])?;
            shown(n, &m.0)?;
        }
    }
    if ix.is_empty() {
        must("default", &Alg::default(), &want)?;
        must("new", &AlgBuilder::default().to_alg(), &want)?;
    }
    Ok(())
}
fn comment(s: &str) -> Result<(), String> {
    trans(1);
    state_of(s);
    match LineComment::try_new(s) {
        Ok(c) => {
            ensure(!s.contains('\n'), || "a comment with a newline was made".into())?;
            must("text", c.text(), s)?;
            shown(&c, &format!("//{}", s))?;
            must("inverse", c.invert().text(), s)?;
            trace(1);
            must("parsed", &Alg { nodes: vec![c.into()] }, &format!("//{}", s).parse::<Alg>().map_err(|_| "comment does not parse")?)
        }
        Err(e) => {
            ensure(s.contains('\n'), || "a comment was refused".into())?;
            ensure(!e.is_empty(), || "empty error".into())
        }
    }
}
fn words(s: &str) -> Result<(), String> {
    state_of(s);
    trans(12);
    let n = KPuzzleOrbitName::from(s);
    must("orbit name", n.0.as_str(), s)?;
    same("orbit name", &n, &KPuzzleOrbitName(s.to_owned()))?;
    shown(&n, s)?;
    must("as JSON", serde_json::to_string(&n).map_err(|e| e.to_string())?, serde_json::to_string(s).map_err(|e| e.to_string())?)?;
    macro_rules! error {
        ($($t:ty),*) => {$(
            let e = <$t>::from(s);
            must("description", e.description.as_str(), s)?;
            shown(&e, s)?;
            let e = <$t>::from(s.to_string());
            must("description", e.description.as_str(), s)?;
            shown(&e, s)?;
        )*};
    }
    error!(AlgParseError, InvalidMoveError, InvalidDefinitionError, InvalidKPatternDataError, InvalidKTransformationDataError);
    let has = |x: String| ensure(x.contains(s), || format!("{:?} does not say {:?}", x, s));
    has(InvalidAlgError::from(AlgParseError::from(s)).to_string())?;
    has(InvalidAlgError::from(InvalidMoveError::from(s)).to_string())?;
    for e in [
        ConversionError::from(InvalidAlgError::from(InvalidMoveError::from(s))),
        ConversionError::from(InvalidDefinitionError::from(s)),
        ConversionError::from(InvalidKPatternDataError::from(s)),
        ConversionError::from(InvalidKTransformationDataError::from(s)),
    ] {
        has(e.to_string())?;
    }
    // a puzzle of that name
    let def = || KPuzzleDefinition { name: s.into(), orbits: vec![KPuzzleOrbitDefinition { orbit_name: s.into(), num_pieces: 2, num_orientations: 2 }], default_pattern: [(s.into(), KPatternOrbitData { pieces: vec![0, 1], orientation: vec![0, 1], orientation_mod: None })].into(), moves: Default::default(), derived_moves: None };
    let k = KPuzzle::try_new(def()).map_err(|e| e.to_string())?;
    let all: Vec<KPuzzle> = vec![KPuzzle::try_new(Arc::new(def())).map_err(|e| e.to_string())?, def().try_into().map_err(|e: InvalidDefinitionError| e.to_string())?, KPuzzle::from(&k), (&k).into(), k.clone()];
    for x in all {
        must("name", x.definition().name.as_str(), s)?;
        let o = x.orbit_info_iter().next().ok_or("no orbit")?;
        must("orbit", (o.name.0.as_str(), o.num_pieces, o.num_orientations), (s, 2, 2))?;
        let p = x.default_pattern();
        must("pattern", p_read(&p), vec![(vec![0, 1], vec![0, 1], vec![0, 0])])?;
        let q = KPattern::from(&p);
        ensure(q == p && hash_of(&q) == hash_of(&p), || "converted pattern differs".into())?;
        trace(1);
    }
    Ok(())
}
/// A node and an alg with these parts hold these parts, whichever way they were built.
fn parts(j: &str) -> Result<(), String> {
    let a = rparse_parts(j);
    state_of(&a);
    let want = to_alg(&a);
    ensure(from_alg(&want) == a, || format!("built from its variants, it holds {:?}", from_alg(&want)))?;
    let mut b = AlgBuilder::default();
    let mut c = AlgBuilder::default();
    for n in &a {
        let ways: Vec<AlgNode> = match to_node(n) {
            AlgNode::MoveNode(x) => vec![AlgNode::from(x.clone()), x.into()],
            AlgNode::PauseNode(x) => vec![AlgNode::from(x.clone()), x.into()],
            AlgNode::NewlineNode(x) => vec![AlgNode::from(x.clone()), x.into()],
            AlgNode::LineCommentNode(x) => vec![AlgNode::from(x.clone()), x.into()],
            AlgNode::GroupingNode(x) => vec![AlgNode::from(x.clone()), x.into()],
            AlgNode::CommutatorNode(x) => vec![AlgNode::from(x.clone()), x.into()],
            AlgNode::ConjugateNode(x) => vec![AlgNode::from(x.clone()), x.into()],
        };
        for w in &ways {
            trans(1);
            trace(1);
            ensure(from_node(w) == *n, || format!("converted, {:?} became {:?}", n, from_node(w)))?;
            ensure(*w == to_node(n) && w.clone() == *w, || format!("converted, {:?} is not itself", n))?;
            must("printed", w.to_string(), to_node(n).to_string())?;
        }
        b.push(&ways[0]);
        c.push(&Alg { nodes: ways[1..].to_vec() });
    }
    trans(2);
    must("pushed nodes", &from_alg(&b.to_alg()), &a)?;
    must("pushed algs", &from_alg(&c.to_alg()), &a)?;
    // different parts give different values
    let d = distort(&a);
    for x in d {
        trans(1);
        let y = to_alg(&x);
        ensure(y != want && want != y, || format!("{:?} and {:?} are equal", a, x))?;
    }
    Ok(())
}
/// Every alg that differs in one part.
fn distort(a: &[RN]) -> Vec<RAlg> {
    let mut out = vec![];
    let mut more = a.to_vec();
    more.push(RN::P);
    out.push(more);
    if !a.is_empty() {
        out.push(a[1..].to_vec());
        out.push(vec![RN::G(a.to_vec(), 1)]);
    }
    for (i, n) in a.iter().enumerate() {
        let ns: Vec<RN> = match n {
            RN::M(m) => vec![RN::M(RMove { amt: -m.amt - 1, ..m.clone() }), RN::M(RMove { pre: RPre::R(1, 2), ..m.clone() }), RN::M(RMove { fam: format!("{}q", m.fam), ..m.clone() })],
            RN::P => vec![RN::N],
            RN::N => vec![RN::C(String::new())],
            RN::C(s) => vec![RN::C(format!("{} ", s)), RN::P],
            RN::G(x, k) => {
                let mut v: Vec<RN> = distort(x).into_iter().map(|x| RN::G(x, *k)).collect();
                v.push(RN::G(x.clone(), -k - 1));
                v.push(RN::K(x.clone(), vec![]));
                v
            }
            RN::K(x, y) => {
                let mut v: Vec<RN> = distort(x).into_iter().map(|x| RN::K(x, y.clone())).collect();
                v.extend(distort(y).into_iter().map(|y| RN::K(x.clone(), y)));
                v.push(RN::J(x.clone(), y.clone()));
                if x != y {
                    v.push(RN::K(y.clone(), x.clone()));
                }
                v
            }
            RN::J(x, y) => {
                let mut v: Vec<RN> = distort(x).into_iter().map(|x| RN::J(x, y.clone())).collect();
                v.extend(distort(y).into_iter().map(|y| RN::J(x.clone(), y)));
                v.push(RN::K(x.clone(), y.clone()));
                if x != y {
                    v.push(RN::J(y.clone(), x.clone()));
                }
                v
            }
        };
        for n in ns {
            let mut v = a.to_vec();
            v[i] = n;
            out.push(v);
        }
    }
    out
}
/// The parts, as a text that says exactly what is held (notation leaves out some parentheses).
fn say(a: &[RN]) -> String {
    let mut s = String::new();
    for n in a {
        match n {
            RN::M(m) => s.push_str(&format!("m{}{},", m.fam, m.amt)),
            RN::P => s.push('p'),
            RN::N => s.push('n'),
            RN::C(_) => s.push('c'),
            RN::G(x, k) => s.push_str(&format!("g{},({})", k, say(x))),
            RN::K(x, y) => s.push_str(&format!("k({})({})", say(x), say(y))),
            RN::J(x, y) => s.push_str(&format!("j({})({})", say(x), say(y))),
        }
    }
    s
}
fn rparse_parts(s: &str) -> RAlg {
    fn int(c: &mut std::iter::Peekable<std::str::Chars>) -> i64 {
        let t: String = std::iter::from_fn(|| c.next_if(|x| *x != ',')).collect();
        c.next();
        t.parse().unwrap_or(0)
    }
    fn list(c: &mut std::iter::Peekable<std::str::Chars>) -> RAlg {
        c.next_if_eq(&'(');
        let mut v = vec![];
        while let Some(x) = c.next() {
            v.push(match x {
                'm' => {
                    let f: String = std::iter::from_fn(|| c.next_if(|x| x.is_ascii_alphabetic() || *x == '_')).collect();
                    RN::M(mv(&f, int(c)))
                }
                'p' => RN::P,
                'n' => RN::N,
                'c' => RN::C(" a".into()),
                'g' => {
                    let k = int(c);
                    RN::G(list(c), k)
                }
                'k' | 'j' => {
                    let (p, q) = (list(c), list(c));
                    if x == 'k' { RN::K(p, q) } else { RN::J(p, q) }
                }
                _ => break,
            });
        }
        v
    }
    list(&mut s.chars().peekable())
}
const WORDS: [&str; 12] = ["", "A", "a b", "\n", "\"quoted\"", "\\", "\u{e9}\u{1f600}", "{}", "{0}", "%s", "EDGES", "A very long description of what went wrong, with 'quotes' and (brackets)."];
fn explore(cx: &mut Cx) {
    for i in 0..prefixes().len() {
        if cx.mine() {
            cx.case("prefix", || i.to_string(), || prefix(i));
        }
    }
    for n in 0..=(if cx.thorough { 5 } else { 4 }) {
        seqs(KINDS, n, &mut |ix| {
            if cx.mine() {
                cx.case("nodes", || format!("{:?}", ix), || nodes(ix));
            }
        });
    }
    let leaves = vec![RN::M(mv("R", 1)), RN::M(mv("U_SQ_", -2)), RN::M(mv("D_SQ_", 1)), RN::P, RN::N, RN::C(" a".into())];
    for n in 0..=(if cx.thorough { 4 } else { 3 }) {
        let g = Gen::new(leaves.clone(), vec![1, 0, -1, 2], n);
        g.each(n, &mut |a| {
            if cx.mine() {
                cx.case("parts", || say(a), || parts(&say(a)));
            }
        });
    }
    // deeper, of fewer kinds
    for n in (if cx.thorough { 5 } else { 4 })..=(if cx.thorough { 6 } else { 5 }) {
        let g = Gen::new(vec![RN::M(mv("R", 1))], vec![1, -2], n);
        g.each(n, &mut |a| {
            if cx.mine() {
                cx.case("parts", || say(a), || parts(&say(a)));
            }
        });
    }
    for n in 0..=(if cx.thorough { 7 } else { 5 }) {
        strings(&["\n", "\r", "a", " ", "/", "\u{e9}", "\u{2028}", "\t"], n, &mut |s| {
            if cx.mine() {
                cx.case("comment", || serde_json::to_string(s).unwrap(), || comment(s));
            }
        });
    }
    for c in (0..0x110000u32).filter_map(char::from_u32) {
        if (c as u32) < 0x3100 || cx.thorough {
            if cx.mine() {
                let s = format!("a{}b", c);
                cx.case("comment", || serde_json::to_string(&s).unwrap(), || comment(&s));
            }
        }
    }
    for s in WORDS {
        if cx.mine() {
            cx.case("words", || serde_json::to_string(s).unwrap(), || words(s));
        }
    }
    for o in 0..=255u8 {
        if cx.mine() {
            cx.case("orientation", || o.to_string(), || orientation(o));
        }
    }
}
fn orientation(o: u8) -> Result<(), String> {
    trans(1);
    let w = OrientationWithMod::new_using_default_orientation_mod(o);
    must("orientation", (w.orientation, w.orientation_mod), (o, 0))?;
    let v = w;
    ensure(v == w && v == OrientationWithMod { orientation: o, orientation_mod: 0 } && v != OrientationWithMod { orientation: o, orientation_mod: 1 }, || "comparison".into())
}
fn replay(kind: &str, case: &str) -> Result<(), String> {
    let text = || serde_json::from_str::<String>(case).map_err(|e| e.to_string());
    let num = || case.parse::<usize>().map_err(|e| e.to_string());
    match kind {
        "prefix" => prefix(num()?),
        "parts" => parts(case),
        "nodes" => nodes(&serde_json::from_str::<Vec<usize>>(case).map_err(|e| e.to_string())?),
        "comment" => comment(&text()?),
        "words" => words(&text()?),
        _ => orientation(num()? as u8),
    }
}
