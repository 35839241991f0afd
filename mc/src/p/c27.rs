//! C27: a puzzle definition in JSON is read as written, or refused.
use crate::bind::*;
use crate::engine::*;
use crate::refm::*;
use cubing::kpuzzle::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        level: "model_checking",
        rule: "Three base definitions: every single and every pair of changes of their JSON trees (every value replaced by each of a menu, every member removed or renamed, members and elements added), in several spacings, member orders and escapings; every truncation, deletion, and replacement and insertion of a byte from a menu in the text, and text around it. A reference reader decides whether the text is a definition and whether its moves can be evaluated; the library must agree through every way of loading, and an accepted puzzle must have the name, orbits, default pattern and moves written. states = distinct texts, transitions = loads, traces = moves evaluated and compared.",
        assumptions: &["serde_json::Value decides what is JSON", "not judged: surplus entries, repeated orbit names or moves, derived moves shadowed by direct ones, structs written as arrays"],
        explore,
        replay,
        hang_s: 60,
        nshards: 8,
    }
}
enum Verdict {
    Refuse,
    /// Not promised either way (but the load must not panic).
    Open,
    Accept(Box<Want>),
}
struct Want {
    puz: RPuz,
    default: Option<RP>,
    derived: bool,
}
fn byte(v: &Value) -> Option<u8> {
    v.as_u64().and_then(|x| u8::try_from(x).ok())
}
fn bytes(v: &Value) -> Option<Vec<u8>> {
    v.as_array()?.iter().map(byte).collect()
}
/// Reading: None when the text is not a definition.
struct Read {
    name: String,
    orbits: Vec<(String, u8, u8)>,
    default: Vec<(String, Vec<u8>, Vec<u8>, Option<Vec<u8>>)>,
    moves: Vec<(String, Vec<(String, Vec<u8>, Vec<u8>)>)>,
    derived: Option<Vec<(String, String)>>,
}
fn read(v: &Value) -> Option<Read> {
    let v = v.as_object()?;
    Some(Read {
        name: v.get("name")?.as_str()?.to_string(),
        orbits: v
            .get("orbits")?
            .as_array()?
            .iter()
            .map(|o| {
                let o = o.as_object()?;
                Some((o.get("orbitName")?.as_str()?.to_string(), byte(o.get("numPieces")?)?, byte(o.get("numOrientations")?)?))
            })
            .collect::<Option<_>>()?,
        default: v
            .get("defaultPattern")?
            .as_object()?
            .iter()
            .map(|(k, o)| {
                let o = o.as_object()?;
                let m = match o.get("orientationMod") {
                    None | Some(Value::Null) => None,
                    Some(m) => Some(bytes(m)?),
                };
                Some((k.clone(), bytes(o.get("pieces")?)?, bytes(o.get("orientation")?)?, m))
            })
            .collect::<Option<_>>()?,
        moves: v
            .get("moves")?
            .as_object()?
            .iter()
            .map(|(k, t)| {
                rparse_move(k)?;
                let t = t
                    .as_object()?
                    .iter()
                    .map(|(n, o)| {
                        let o = o.as_object()?;
                        Some((n.clone(), bytes(o.get("permutation")?)?, bytes(o.get("orientationDelta")?)?))
                    })
                    .collect::<Option<_>>()?;
                Some((k.clone(), t))
            })
            .collect::<Option<_>>()?,
        derived: match v.get("derivedMoves") {
            None | Some(Value::Null) => None,
            Some(d) => Some(
                d.as_object()?
                    .iter()
                    .map(|(k, a)| {
                        rparse_move(k)?;
                        rparse(a.as_str()?)?;
                        Some((k.clone(), a.as_str()?.to_string()))
                    })
                    .collect::<Option<_>>()?,
            ),
        },
    })
}
/// An array where a struct is expected may be read as its members in order.
fn arrays_for_structs(v: &Value) -> bool {
    let long = |v: &Value, n: usize| v.as_array().is_some_and(|a| a.len() >= n);
    if long(v, 4) {
        return true;
    }
    let Some(v) = v.as_object() else { return false };
    let inner = |v: Option<&Value>, n: usize| match v {
        Some(Value::Object(m)) => m.values().any(|x| long(x, n)),
        Some(Value::Array(a)) => a.iter().any(|x| long(x, n)),
        _ => false,
    };
    inner(v.get("orbits"), 3) || inner(v.get("defaultPattern"), 2) || v.get("moves").and_then(|m| m.as_object()).is_some_and(|m| m.values().any(|t| inner(Some(t), 2)))
}
fn judge(v: &Value) -> (bool, Verdict) {
    let Some(r) = read(v) else {
        return (false, if arrays_for_structs(v) { Verdict::Open } else { Verdict::Refuse });
    };
    (true, meaning(&r))
}
fn meaning(r: &Read) -> Verdict {
    if HashSet::<&String>::from_iter(r.orbits.iter().map(|o| &o.0)).len() < r.orbits.len() {
        return Verdict::Open;
    }
    let mut keys = HashSet::new();
    let mut ones = HashSet::new();
    for k in r.moves.iter().map(|m| &m.0).chain(r.derived.iter().flatten().map(|d| &d.0)) {
        let m = rparse_move(k).unwrap();
        ones.insert(RMove { amt: 1, ..m.clone() });
        if m.fam == "_SLASH_" && k != "/" || !keys.insert(m) {
            return Verdict::Open;
        }
    }
    // a definition with the amount 1 hides the others
    if keys.iter().any(|m| m.amt != 1 && keys.contains(&RMove { amt: 1, ..m.clone() })) || ones.len() < keys.len() && keys.iter().any(|m| m.amt != 1) {
        return Verdict::Open;
    }
    if r.orbits.iter().any(|o| o.2 == 0 || o.2 > 107) {
        return Verdict::Refuse;
    }
    let orbits: Vec<(&str, usize, usize)> = r.orbits.iter().map(|o| (o.0.as_str(), o.1 as usize, o.2 as usize)).collect();
    let mut open = false;
    let mut moves: Vec<(&str, RT)> = vec![];
    for (k, t) in &r.moves {
        let mut x: RT = vec![];
        for &(n, np, no) in &orbits {
            match t.iter().find(|o| o.0 == n) {
                None if np == 0 => {
                    open = true;
                    x.push((vec![], vec![]));
                }
                None => return Verdict::Refuse,
                Some((_, p, d)) => {
                    if p.len() < np || d.len() < np {
                        return Verdict::Refuse;
                    }
                    open |= p.len() > np || d.len() > np;
                    let p: Vec<usize> = p[..np].iter().map(|x| *x as usize).collect();
                    let d: Vec<usize> = d[..np].iter().map(|x| *x as usize).collect();
                    if p.iter().any(|x| *x >= np) || p.iter().collect::<HashSet<_>>().len() < np || d.iter().any(|x| *x >= no) {
                        return Verdict::Refuse;
                    }
                    x.push((p, d));
                }
            }
        }
        moves.push((k, x));
    }
    let derived: Vec<(&str, &str)> = r.derived.iter().flatten().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    let puz = RPuz::new(PSpec { name: &r.name, orbits: orbits.clone(), default: None, moves, derived });
    // every derived move ends in direct ones
    let n = puz.derived.len();
    let mut done = vec![false; n];
    loop {
        let before = done.iter().filter(|d| **d).count();
        for i in 0..n {
            let mut ms = vec![];
            moves_in(&puz.derived[i].1, &mut ms);
            done[i] = ms.iter().all(|m| match puz.lookup(m) {
                None => false,
                Some((Ok(_), _)) => true,
                Some((Err(j), _)) => done[j],
            });
        }
        let after = done.iter().filter(|d| **d).count();
        if after == n {
            break;
        }
        if after == before {
            return Verdict::Refuse;
        }
    }
    if open {
        return Verdict::Open;
    }
    let default = orbits
        .iter()
        .map(|&(n, np, no)| {
            let (_, p, d, m) = r.default.iter().find(|o| o.0 == n)?;
            let m = m.clone().unwrap_or(vec![0; np]);
            if p.len() != np || d.len() != np || m.len() != np {
                return None;
            }
            let m: Vec<usize> = m.iter().map(|x| *x as usize).collect();
            let d: Vec<usize> = d.iter().map(|x| *x as usize).collect();
            for i in 0..np {
                if m[i] != 0 && no % m[i] != 0 || d[i] >= (if m[i] == 0 { no } else { m[i] }) {
                    return None;
                }
            }
            Some((p.clone(), d, m))
        })
        .collect::<Option<RP>>()
        .map(|d| p_canon(&puz.orbits, &d));
    Verdict::Accept(Box::new(Want { puz, default, derived: r.derived.is_some() }))
}
fn good(k: &KPuzzle, w: &Want) -> Result<(), String> {
    must("name", &k.definition().name, &w.puz.name)?;
    let o: Vec<(&str, usize, usize)> = k.orbit_info_iter().map(|o| (o.name.0.as_str(), o.num_pieces as usize, o.num_orientations as usize)).collect();
    let want: Vec<(&str, usize, usize)> = w.puz.orbits.iter().map(|o| (o.name.as_str(), o.np, o.no)).collect();
    must("orbits", o, want)?;
    must("number of moves", k.definition().moves.len(), w.puz.moves.len())?;
    must("derived moves", k.definition().derived_moves.as_ref().map(|d| d.len()), w.derived.then_some(w.puz.derived.len()))?;
    for m in w.puz.moves.iter().map(|m| &m.0).chain(w.puz.derived.iter().map(|m| &m.0)) {
        trace(1);
        let want = w.puz.mv(m).ok_or("reference cannot evaluate")?;
        let t = k.transformation_from_move(&to_mv(m)).map_err(|e| format!("{:?} refused: {}", m, e))?;
        must("move", t_read(&t), want)?;
    }
    if let Some(d) = &w.default {
        must("default pattern", &p_read(&k.default_pattern()), d)?;
    }
    Ok(())
}
fn check(text: &[u8], all_ways: bool) -> Result<(), String> {
    state_of(text);
    let v: Option<Value> = serde_json::from_slice(text).ok();
    let (typed, verdict) = match &v {
        None => (false, Verdict::Refuse),
        Some(v) => judge(v),
    };
    let mut got: Vec<(&str, Option<KPuzzle>)> = vec![("try_from_json", KPuzzle::try_from_json(text).map_err(|e| ensure(!e.to_string().is_empty(), || "empty error".into())).ok())];
    trans(1);
    if all_ways {
        let defs = [
            serde_json::from_slice::<KPuzzleDefinition>(text).ok(),
            serde_json::from_reader::<_, KPuzzleDefinition>(text).ok(),
            std::str::from_utf8(text).ok().and_then(|t| serde_json::from_str(t).ok()),
            v.as_ref().and_then(|v| serde_json::from_value(v.clone()).ok()),
        ];
        for (i, d) in defs.into_iter().enumerate() {
            trans(1);
            if !matches!(verdict, Verdict::Open) {
                ensure(d.is_some() == typed, || format!("the definition was {} by deserialization {}", if typed { "refused" } else { "accepted" }, i))?;
            }
            let k = d.and_then(|d| match i {
                0 => KPuzzle::try_new(d).ok(),
                1 => KPuzzle::try_from(d).ok(),
                2 => KPuzzle::try_new(Arc::new(d)).ok(),
                _ => d.try_into().ok(),
            });
            got.push(("deserialized", k));
        }
    }
    for (way, k) in &got {
        match (&verdict, k) {
            (Verdict::Open, None) => {}
            (Verdict::Open, Some(k)) => {
                // whatever was accepted can be used
                for m in k.definition().moves.keys() {
                    k.transformation_from_move(m).map_err(|e| e.to_string())?;
                }
            }
            (Verdict::Refuse, None) => {}
            (Verdict::Refuse, Some(_)) => return Err(format!("{}: accepted, although it is not a usable definition", way)),
            (Verdict::Accept(_), None) => return Err(format!("{}: refused, although it is a usable definition", way)),
            (Verdict::Accept(w), Some(k)) => good(k, w)?,
        }
    }
    Ok(())
}
fn bases() -> Vec<Value> {
    vec![
        json!({
            "name": "base",
            "orbits": [{"orbitName": "P", "numPieces": 2, "numOrientations": 4}, {"orbitName": "Q", "numPieces": 1, "numOrientations": 1}],
            "defaultPattern": {"P": {"pieces": [0, 1], "orientation": [1, 0], "orientationMod": [0, 2]}, "Q": {"pieces": [7], "orientation": [0]}},
            "moves": {"A": {"P": {"permutation": [1, 0], "orientationDelta": [3, 0]}, "Q": {"permutation": [0], "orientationDelta": [0]}}},
            "derivedMoves": {"C": "A2 // x", "2-3D'": "[A: C]"}
        }),
        json!({"name": "", "orbits": [], "defaultPattern": {}, "moves": {"/": {}, "UR1+": {}}, "derivedMoves": null}),
        json!({
            "name": "three",
            "orbits": [{"orbitName": "P", "numPieces": 3, "numOrientations": 2}],
            "defaultPattern": {"P": {"pieces": [0, 0, 1], "orientation": [0, 1, 0], "orientationMod": null}},
            "moves": {"B2": {"P": {"permutation": [1, 2, 0], "orientationDelta": [1, 0, 1]}}}
        }),
    ]
}
fn menu() -> Vec<Value> {
    vec![
        json!(null),
        json!(true),
        json!(0),
        json!(1),
        json!(2),
        json!(3),
        json!(107),
        json!(108),
        json!(255),
        json!(256),
        json!(-1),
        json!(1.5),
        json!(1e30),
        json!(""),
        json!("A"),
        json!("C B2"),
        json!("("),
        json!("1"),
        json!([]),
        json!([0]),
        json!([1, 0]),
        json!([0, 256]),
        json!(["A"]),
        json!([null]),
        json!({}),
        json!({"A": 0}),
    ]
}
const NAMES: [&str; 14] = ["x", "", "A", "A1", "C", "B2", "(", "P", "Name", "orbit_name", "derived_moves", "orientation_mod", "orientationmod", "moves "];
/// Every tree one change away.
fn changes(v: &Value, menu: &[Value], names: &[&str], f: &mut dyn FnMut(Value)) {
    for m in menu {
        if m != v {
            f(m.clone());
        }
    }
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                let mut w = o.clone();
                w.remove(k);
                f(Value::Object(w.clone()));
                for n in names {
                    if !o.contains_key(*n) {
                        let mut w = w.clone();
                        w.insert(n.to_string(), x.clone());
                        f(Value::Object(w));
                    }
                }
                changes(x, menu, names, &mut |y| {
                    let mut w = o.clone();
                    w.insert(k.clone(), y);
                    f(Value::Object(w));
                });
            }
            for (n, x) in [("extra", json!(1)), ("extra", json!(null)), ("extra", json!([{"a": [1]}])), ("A", json!({})), ("F", json!("A'"))] {
                if !o.contains_key(n) {
                    let mut w = o.clone();
                    w.insert(n.into(), x);
                    f(Value::Object(w));
                }
            }
            // a copy of a member under another name
            if let Some(x) = o.values().next() {
                for n in ["F3", "2R", "Z"] {
                    let mut w = o.clone();
                    w.insert(n.into(), x.clone());
                    f(Value::Object(w));
                }
            }
        }
        Value::Array(a) => {
            for i in 0..a.len() {
                let mut w = a.clone();
                w.remove(i);
                f(Value::Array(w));
                changes(&a[i], menu, names, &mut |y| {
                    let mut w = a.clone();
                    w[i] = y;
                    f(Value::Array(w));
                });
                let mut w = a.clone();
                w.insert(i, a[i].clone());
                f(Value::Array(w));
            }
        }
        _ => {}
    }
}
/// Spacing, member order and escaping.
const STYLES: usize = 6;
fn text(v: &Value, style: usize) -> String {
    let s = |x: &str| match style {
        3 => format!("\"{}\"", x.encode_utf16().map(|c| format!("\\u{:04x}", c)).collect::<String>()),
        4 => format!("\"{}\"", x.encode_utf16().map(|c| if c < 128 && c % 2 == 0 { format!("\\u{:04X}", c) } else { String::from_utf16_lossy(&[c]) }).collect::<String>()),
        _ => serde_json::to_string(x).unwrap(),
    };
    let sp = ["", " ", "\n\t", "", "", "\r\n "][style];
    match v {
        Value::Object(o) => {
            let mut m: Vec<String> = o.iter().map(|(k, x)| format!("{}{}{}:{}{}", sp, s(k), sp, sp, text(x, style))).collect();
            if style % 2 == 1 {
                m.reverse();
            }
            format!("{{{}{}}}", m.join(","), sp)
        }
        Value::Array(a) => format!("[{}{}]", a.iter().map(|x| format!("{}{}", sp, text(x, style))).collect::<Vec<_>>().join(","), sp),
        Value::String(x) => s(x),
        x => x.to_string(),
    }
}
const EDITS: &[u8] = b"{}[]:,\"'\\/ \n\t0123456789-+.eEnulAaBCPQx_(\x00\x1f\x7f\x80\xc3\xff";
fn explore(cx: &mut Cx) {
    let menu = menu();
    let short: Vec<Value> = if cx.thorough { menu.clone() } else { menu.iter().filter(|v| matches!(v.to_string().as_str(), "null" | "0" | "1" | "3" | "256" | "\"A\"" | "\"C B2\"" | "[0]" | "[1,0]" | "{}")).cloned().collect() };
    let few: Vec<&str> = if cx.thorough { NAMES.to_vec() } else { vec!["x", "C", "(", "P"] };
    for b in bases() {
        let go = |cx: &mut Cx, v: &Value, style: usize, all: bool| {
            if cx.mine() {
                let t = text(v, style);
                cx.case("text", || serde_json::to_string(&t).unwrap(), || check(t.as_bytes(), all));
            }
        };
        for style in 0..STYLES {
            go(cx, &b, style, true);
        }
        let mut one = vec![];
        changes(&b, &menu, &NAMES, &mut |v| one.push(v));
        for v in &one {
            for style in 0..STYLES {
                go(cx, v, style, true);
            }
        }
        let mut some = vec![];
        changes(&b, &short, &few, &mut |v| some.push(v));
        for v in &some {
            changes(v, &short, &few, &mut |w| go(cx, &w, 0, false));
        }
        // the text
        for style in [0, 2] {
            let t = text(&b, style).into_bytes();
            let raw = |cx: &mut Cx, t: Vec<u8>| {
                if cx.mine() {
                    cx.case("bytes", || format!("{:?}", t), || check(&t, true));
                }
            };
            for i in 0..=t.len() {
                if i < t.len() {
                    raw(cx, t[..i].to_vec());
                    raw(cx, [&t[..i], &t[i + 1..]].concat());
                }
                for e in EDITS {
                    raw(cx, [&t[..i], &[*e], &t[i..]].concat());
                    if i < t.len() {
                        raw(cx, [&t[..i], &[*e], &t[i + 1..]].concat());
                    }
                }
            }
            for (x, y) in [("\u{feff}", ""), ("", "\u{feff}"), (" \n", "\t\r\n "), ("", "null"), ("", "{}"), ("{}", ""), ("[", "]"), ("//c\n", ""), ("", "//c"), ("", ";"), ("\0", ""), ("", "\0")] {
                raw(cx, [x.as_bytes(), &t, y.as_bytes()].concat());
            }
        }
    }
}
fn replay(kind: &str, case: &str) -> Result<(), String> {
    if kind == "bytes" {
        return check(&serde_json::from_str::<Vec<u8>>(case).map_err(|e| e.to_string())?, true);
    }
    check(serde_json::from_str::<String>(case).map_err(|e| e.to_string())?.as_bytes(), true)
}
