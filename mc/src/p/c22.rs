//! C22: the f2lfast example.
use super::c19::Cube;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use std::process::{Command, Stdio};

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        level: "model_checking",
        rule: "Every scramble made of up to two triggers with turns of the last layer before, between and after, and every sequence of up to two turns (most of which break the cross), run through the real program with its deterministic search. Reported slots, refusals, and every printed solution (long form, short form, link) are judged with the geometric cube model. states = distinct scrambles, transitions = solutions judged, traces = program runs.",
        assumptions: &["deterministic search (--no-randomize) at depth 2, 3 for single triggers"],
        explore: explore_,
        replay,
        hang_s: 300,
        nshards: 8,
    }
}
const TRIG: [(&str, &str); 24] = [
    ("K", "R U R'"), ("K2", "R U2 R'"), ("K'", "R U' R'"), ("FK", "F' U' F"), ("FK2", "F' U2 F"), ("FK'", "F' U F"),
    ("J", "R' U' R"), ("J2", "R' U2 R"), ("J'", "R' U R"), ("BJ", "B U B'"), ("BJ2", "B U2 B'"), ("BJ'", "B U' B'"),
    ("H", "L' U' L"), ("H2", "L' U2 L"), ("H'", "L' U L"), ("FH", "F U F'"), ("FH2", "F U2 F'"), ("FH'", "F U' F'"),
    ("I", "L U L'"), ("I2", "L U2 L'"), ("I'", "L U' L'"), ("BI", "B' U' B"), ("BI2", "B' U2 B"), ("BI'", "B' U B"),
];
const AUF: [&str; 4] = ["", "U", "U2", "U'"];
/// Slot, edge position, corner position.
const SLOTS: [(&str, usize, usize); 4] = [("K", 8, 4), ("J", 10, 7), ("H", 9, 5), ("I", 11, 6)];
fn turn(c: &mut Cube, text: &str) -> Result<(), String> {
    let a = rparse(text).ok_or(format!("{:?} is not an alg", text))?;
    let mut out = vec![];
    if !expand(&a, false, 100_000, &mut out) {
        return Err("too long".into());
    }
    for m in out {
        let f = m.fam.chars().next().unwrap();
        let (face, depths): (char, &[i8]) = match m.fam.as_str() {
            "U" | "D" | "R" | "L" | "F" | "B" if m.pre == RPre::No => (f, &[1]),
            "x" => ('R', &[-1, 0, 1]),
            "y" => ('U', &[-1, 0, 1]),
            "M" => ('L', &[0]),
            "r" => ('R', &[0, 1]),
            "d" => ('D', &[0, 1]),
            _ => return Err(format!("unexpected move {:?}", m)),
        };
        c.turn(face, depths, m.amt);
    }
    Ok(())
}
fn query(u: &str) -> Option<Vec<(String, String)>> {
    let dec = |s: &str| -> Option<String> {
        let mut b = vec![];
        let mut it = s.bytes();
        while let Some(c) = it.next() {
            match c {
                b'+' => b.push(b' '),
                b'%' => {
                    let h = [it.next()?, it.next()?];
                    b.push(u8::from_str_radix(std::str::from_utf8(&h).ok()?, 16).ok()?)
                }
                c => b.push(c),
            }
        }
        String::from_utf8(b).ok()
    };
    u.split_once('?')?.1.split('&').map(|kv| kv.split_once('=').and_then(|(k, v)| Some((dec(k)?, dec(v)?)))).collect()
}
/// The scramble as last layer turns and triggers, undone: the sequence the search has to find, unless it
/// may pass it over: a slot is only worked on while it is not solved, each slot is finished by a trigger of
/// its own, and (the defect on record) a slot with only its edge in place may be taken for solved.
fn undo(steps: &[&str]) -> Option<String> {
    let mut c = Cube::new(true);
    for s in steps.iter().filter(|s| !s.is_empty()) {
        turn(&mut c, s).ok()?;
    }
    let flags = |c: &Cube| -> Vec<(bool, bool)> {
        let s = c.read(true);
        SLOTS.iter().map(|x| (s[0].0[x.1] == x.1 && s[0].1[x.1] == 0, s[1].0[x.2] == x.2 && s[1].1[x.2] == 0)).collect()
    };
    let mut solved: Vec<bool> = vec![];
    for (e, k) in flags(&c) {
        if e && !k {
            return None;
        }
        solved.push(e && k);
    }
    let mut out: Vec<&str> = vec![];
    for s in steps.iter().rev() {
        let inv: Vec<String> = s.split(' ').filter(|x| !x.is_empty()).rev().map(|m| if m.ends_with('2') { m.to_string() } else if let Some(m) = m.strip_suffix('\'') { m.to_string() } else { format!("{}'", m) }).collect();
        let inv = inv.join(" ");
        turn(&mut c, &inv).ok()?;
        let Some(t) = TRIG.iter().position(|t| t.1 == inv) else {
            let a = AUF.iter().find(|a| **a == inv)?;
            if !a.is_empty() {
                out.push(a);
            }
            continue;
        };
        let slot = match TRIG[t].0.chars().find(|c| "KJHI".contains(*c))? {
            'K' => 0,
            'J' => 1,
            'H' => 2,
            _ => 3,
        };
        if solved[slot] {
            return None;
        }
        let (e, k) = flags(&c)[slot];
        if e && !k {
            return None;
        }
        solved[slot] = e && k;
        out.push(TRIG[t].1);
    }
    if solved.iter().all(|s| *s) {
        Some(out.join(" "))
    } else {
        None
    }
}
/// Ok(true): the known finding showed.
fn check(scramble: &str, depth: usize, expect: Option<String>) -> Result<bool, String> {
    state_of(scramble);
    let exe = std::env::var("MC_F2L").map_err(|_| "MC_F2L is not set")?;
    let o = Command::new(exe)
        .args(["--no-randomize", "--max-depth", &depth.to_string(), "--scramble", scramble])
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    trace(1);
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let mut c = Cube::new(true);
    turn(&mut c, scramble)?;
    let s = c.read(true);
    let placed = |orbit: usize, i: usize| s[orbit].0[i] == i && s[orbit].1[i] == 0;
    let cross = (4..8).all(|i| placed(0, i));
    if !cross {
        if o.status.code() == Some(0) || o.status.code().is_none() || text.contains("Solution") {
            return Err(format!("the cross is broken, but: {:?} {}", o.status, trunc(&text)));
        }
        return Ok(false);
    }
    if o.status.code() != Some(0) {
        return Err(format!("ended with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
    }
    let mut said: Vec<&str> = text.lines().filter_map(|l| l.strip_prefix("Initially solved slot: ")).collect();
    said.sort();
    let slots = |full: bool| -> Vec<&str> {
        let mut v: Vec<&str> = SLOTS.iter().filter(|x| placed(0, x.1) && (!full || placed(1, x.2))).map(|x| x.0).collect();
        v.sort();
        v
    };
    if let Some(want) = &expect {
        let flat = |l: &str| l.split([' ', '.']).filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ");
        if !text.lines().filter_map(|l| l.strip_prefix("Long: ")).any(|l| flat(l) == *want) {
            return Err(format!("the solution {:?} is not printed", want));
        }
        state_of(&(scramble, want));
    }
    let mut known = false;
    if said != slots(true) {
        // The one defect on record: the corner is looked up among the (solved) cross edges.
        if said == slots(false) {
            known = true;
        } else {
            return Err(format!("slots {:?} reported as solved, but {:?} are", said, slots(true)));
        }
    }
    // The main thread prints this line whenever it gets to it.
    let lines: Vec<&str> = text.lines().filter(|l| !l.starts_with("Len: ")).collect();
    for (k, l) in lines.iter().enumerate() {
        if *l != "Full Solution!" {
            continue;
        }
        trans(1);
        let field = |n: usize, p: &str| lines.get(k + n).and_then(|l| l.strip_prefix(p)).ok_or(format!("no {:?} line", p));
        let (short, long, link) = (field(1, "Short: ")?, field(2, "Long: ")?, field(3, "https://")?);
        let mut d = c.clone();
        turn(&mut d, long)?;
        if d != Cube::new(true) && d.read(true)[..2] != Cube::new(true).read(true)[..2] {
            return Err(format!("the solution {:?} does not solve", long));
        }
        if d.read(true)[2].0 != vec![0, 1, 2, 3, 4, 5] {
            return Err(format!("the solution {:?} moves centers", long));
        }
        let full: Vec<&str> = short
            .split(' ')
            .filter(|w| !w.is_empty())
            .map(|w| TRIG.iter().find(|t| t.0 == w).map(|t| t.1).unwrap_or(w))
            .flat_map(|w| w.split(' '))
            .collect();
        if full != long.split(' ').filter(|w| !w.is_empty()).collect::<Vec<_>>() {
            return Err(format!("short form {:?} is not {:?}", short, long));
        }
        let q = query(link).ok_or(format!("link {:?}", link))?;
        let get = |k: &str| q.iter().find(|x| x.0 == k).map(|x| x.1.clone());
        let want = rparse(scramble);
        if get("setup-alg").and_then(|s| rparse(&s)) != want || get("alg").and_then(|s| rparse(&s)) != rparse(long) {
            return Err(format!("link {:?} does not carry {:?} and {:?}", link, scramble, long));
        }
    }
    Ok(known)
}
fn explore_(cx: &mut Cx) {
    let join = |v: &[&str]| v.iter().filter(|s| !s.is_empty()).copied().collect::<Vec<_>>().join(" ");
    let go = |cx: &mut Cx, kind: &str, s: String, depth: usize, steps: &[&str]| {
        if !cx.mine() {
            return;
        }
        let mut known = false;
        let want = if steps.is_empty() { None } else { undo(steps) };
        if want.is_some() {
            cx.count("scrambles with a solution to find", 1);
        }
        cx.case(kind, || format!("{}|{}", depth, s), || {
            known = check(&s, depth, want)?;
            Ok(())
        });
        if known {
            cx.violate("corner index", "ORBIT_INDEX_CORNERS".into(), "a slot is reported as solved although its corner is not".into());
        }
    };
    for a in AUF {
        go(cx, "last layer only", a.into(), 2, &[a]);
        for t in TRIG {
            for b in AUF {
                go(cx, "one trigger", join(&[a, t.1, b]), if cx.thorough { 3 } else { 2 }, &[a, t.1, b]);
            }
        }
    }
    let ends: &[&str] = if cx.thorough { &AUF } else { &["", "U"] };
    mixed(&[ends.len(), 24, 4, 24, ends.len()], &mut |i| {
        if !cx.thorough && i[0] + i[4] > 0 {
            return;
        }
        let steps = [ends[i[0]], TRIG[i[1]].1, AUF[i[2]], TRIG[i[3]].1, ends[i[4]]];
        go(cx, "two triggers", join(&steps), 2, &steps);
    });
    let t = ["U", "U2'", "D", "D'", "R", "R2", "L'", "F", "B2", "x", "y", "y2", "M", "M2", "r", "d", "(R U R')0", "[R: U]", "[F', U]2", ".", "// c"];
    for n in 1..=(if cx.thorough { 3 } else { 2 }) {
        seqs(t.len(), n, &mut |i| go(cx, "any turns", i.iter().map(|i| t[*i]).collect::<Vec<_>>().join(if i.contains(&20) { "\n" } else { " " }), 1, &[]));
    }
}
fn replay(_kind: &str, case: &str) -> Result<(), String> {
    let (d, s) = case.split_once('|').ok_or("no scramble")?;
    // the parts of the scramble, where it is one made of triggers
    let w: Vec<&str> = s.split(' ').filter(|x| !x.is_empty()).collect();
    let (mut steps, mut i) = (vec![], 0);
    while i < w.len() {
        let three = w[i..].iter().take(3).copied().collect::<Vec<_>>().join(" ");
        if let Some(t) = TRIG.iter().find(|t| t.1 == three) {
            steps.push(t.1);
            i += 3;
        } else if AUF.contains(&w[i]) {
            steps.push(w[i]);
            i += 1;
        } else {
            steps.clear();
            break;
        }
    }
    check(s, d.parse().map_err(|_| "depth")?, if steps.is_empty() { None } else { undo(&steps) }).map(|_| ())
}
