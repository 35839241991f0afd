//! C01: parsing is total and accepts exactly the notation.
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use cubing::alg::*;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        level: "model_checking",
        rule: "All strings over several alphabets up to a length, all token sequences, all single edits of seed algs, number boundaries in every numeric field, nesting of every bracket kind, every character in every context. Each string is a run of the reference recursive-descent recognizer (states = distinct results, transitions = symbols consumed) and is replayed on the library's parsers.",
        assumptions: &["the reference recognizer in mc/src/refm.rs states the notation", "strings longer or deeper than the stated bounds behave like those within them"],
        explore,
        replay,
        hang_s: 20,
        nshards: 8,
    }
}

pub fn check_alg(s: &str) -> Result<(), String> {
    let want = rparse(s);
    let got = s.parse::<Alg>();
    trans(s.len() as u64 + 1);
    trace(1);
    match (&want, &got) {
        (None, Err(_)) => {
            state(1);
        }
        (Some(w), Ok(g)) => {
            let g2 = from_alg(g);
            if *w != g2 {
                return Err(format!("alg parsed as {:?}, should be {:?}", g2, w));
            }
            state_of(w);
        }
        (None, Ok(g)) => return Err(format!("accepted as {:?}, should be refused", from_alg(g))),
        (Some(w), Err(_)) => return Err(format!("refused, should be {:?}", w)),
    }
    let again = Alg::try_from(s);
    match (got, again) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        _ => Err("TryFrom<&str> and FromStr disagree".into()),
    }
}
pub fn check_move(s: &str) -> Result<(), String> {
    let want = rparse_move(s);
    let got = s.parse::<Move>();
    trans(s.len() as u64 + 1);
    trace(1);
    match (&want, &got) {
        (None, Err(_)) => state(2),
        (Some(w), Ok(g)) => {
            must("move", &from_mv(g), w)?;
            state_of(&(7, w));
        }
        (w, g) => return Err(format!("move: got {:?}, want {:?}", g, w)),
    }
    match (got, Move::try_from(s)) {
        (Ok(a), Ok(b)) if a == b => {}
        (Err(_), Err(_)) => {}
        _ => return Err("Move: TryFrom<&str> and FromStr disagree".into()),
    }
    let want = rparse_quantum(s);
    let got = s.parse::<QuantumMove>();
    match (&want, &got) {
        (None, Err(_)) => state(3),
        (Some(w), Ok(g)) => {
            must("quantum move", &from_q(g, 1), w)?;
            state_of(&(9, w));
        }
        (w, g) => return Err(format!("quantum move: got {:?}, want {:?}", g, w)),
    }
    match (got, QuantumMove::try_from(s)) {
        (Ok(a), Ok(b)) if a == b => {}
        (Err(_), Err(_)) => {}
        _ => return Err("QuantumMove: TryFrom<&str> and FromStr disagree".into()),
    }
    Ok(())
}
fn both(s: &str) -> Result<(), String> {
    check_alg(s)?;
    check_move(s)
}

pub const FULL: &[&str] = &[
    "R", "u", "_", "2", "0", "'", "+", "-", "/", ".", "\n", "(", ")", "[", "]", ",", ":", " ",
];
pub const TOKENS: &[&str] = &[
    "R", "Uw", "x", "2", "10", "'", "2'", "++", "--", "3+", "3-", "0+", "/", "//", "// c", ".",
    "\n", " ", "  ", "(", ")", "[", "]", ",", ", ", ":", ": ", "(1, 2)", "(-3, 0)", "R2'", "3Rw",
    "2-3r", "-", "_SLASH_", "R_PLUS_", "U_SQ_", "[R, U]", "[F: D]", "(L)",
];
pub const SEEDS: &[&str] = &[
    "R U R' U'",
    "[R, U2']3' (F 2Rw)2",
    "[[A: B], C]: ",
    "// hello\nR // x\n. .",
    "R++ D-- U'\n",
    "UR3+ DL0- y2 ALL6-",
    "(1, 0) / (-3, -12) /",
    "12-34Rw567'",
    "([R: [U, D]]4 (L)')2",
    "_SLASH_ R_PLUS_2 R_PLUSPLUS_'",
    "  R   U  ",
    "[ , ] [:] () ()'",
    "4294967295R2147483647'",
    "(2147483647, -2147483647)",
];

fn strs(cx: &mut Cx, kind: &str, syms: &[&str], lo: usize, hi: usize, f: fn(&str) -> Result<(), String>) {
    for n in lo..=hi {
        strings(syms, n, &mut |s| {
            if cx.mine() {
                cx.case(kind, || s.to_string(), || f(s));
            }
        });
    }
}

pub fn nest(open: &str, mid: &str, close: &str, d: usize) -> String {
    let mut s = String::new();
    for _ in 0..d {
        s.push_str(open);
    }
    s.push_str(mid);
    for _ in 0..d {
        s.push_str(close);
    }
    s
}
pub const NESTS: &[(&str, &str)] = &[
    ("(", ")"),
    ("(", ")2'"),
    ("[R, ", "]"),
    ("[", ", R]"),
    ("[R: ", "]"),
    ("[", ": R]"),
    ("[", ", R]2"),
    ("[", ": R]'"),
    ("(R ", " U)"),
    ("([", ", U])3"),
    ("[(R), (", ")2]"),
    ("[(1, 2), ", "]"),
    ("(//x\n", "//y\n)"),
];

/// Head, what to repeat, and tail of texts of any length.
pub const LONG: &[(&str, &str, &str)] = &[
    ("", "R ", ""),
    ("", "\n", ""),
    ("", ". ", "R"),
    ("// ", "c", "\nR"),
    ("// ", "\u{e9}", "\nR"),
    ("R // ", "\u{1f600}", ""),
    ("", "//\u{20ac}\n", "R"),
    ("R", "0", "12"),
    ("", "0", "2R"),
    ("1-", "0", "2R"),
    ("(", "0", "1, 2)"),
    ("", "a", ""),
    ("2", "_", "3'"),
    ("(", "R ", ")2'"),
    ("[R, ", "U2' ", "]"),
    ("[", " ", ": U]"),
    ("", "(R)2 ", ""),
    ("", "[R, U] ", ""),
    ("", "(1, -2) / ", ""),
    ("", "R\u{e9}", ""),
];
fn explore(cx: &mut Cx) {
    let t = cx.thorough;
    // nesting, deepest first
    for (o, c) in NESTS {
        for d in (1..=64).chain([80, 96, 100, 128, 200, 256, 300, 384, 512]).rev() {
            if d > 256 && (o.len() > 2) && !t {
                continue;
            }
            if cx.mine() {
                for (mid, cut) in [("R", 0), ("", 0), ("R", 1), ("R U'", 0), ("%", 0)] {
                    let mut s = nest(o, mid, c, d);
                    if cut > 0 {
                        s.truncate(s.len() - cut);
                    }
                    cx.case("alg", || s.clone(), || check_alg(&s));
                    let s = format!("{} {}", s, s);
                    cx.case("alg", || s.clone(), || check_alg(&s));
                }
            }
        }
    }
    for (a, b) in NESTS.iter().flat_map(|a| NESTS.iter().map(move |b| (a, b))) {
        for d in [24, 8, 2] {
            if cx.mine() {
                let s = nest(&format!("{}{}", a.0, b.0), "R", &format!("{}{}", b.1, a.1), d);
                cx.case("alg", || s.clone(), || check_alg(&s));
            }
        }
    }
    strs(cx, "alg", FULL, 0, if t { 6 } else { 5 }, check_alg);
    strs(
        cx,
        "both",
        &["R", "_", "2", "0", "'", "+", "-", "/"],
        0,
        if t { 8 } else { 6 },
        both,
    );
    strs(
        cx,
        "alg",
        &["R", "(", ")", "[", "]", ",", ":", " ", "2", "'"],
        6,
        if t { 8 } else { 6 },
        check_alg,
    );
    strs(
        cx,
        "alg",
        &["/", "\n", "R", " ", "(", ")", ".", "[", ",", "]"],
        6,
        if t { 8 } else { 6 },
        check_alg,
    );
    strs(
        cx,
        "alg",
        &["(", ")", "1", "0", "-", ",", " ", "R"],
        6,
        if t { 9 } else { 7 },
        check_alg,
    );
    strs(cx, "both", TOKENS, 0, if t { 5 } else { 4 }, check_alg);

    // numeric boundaries in every field
    let mut nums: Vec<String> = [
        0u64, 1, 2, 9, 10, 11, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 999999999,
        1000000000, 2147483646, 2147483647, 2147483648, 2147483649, 4294967294, 4294967295,
        4294967296, 4294967297, 9999999999, 18446744073709551615,
    ]
    .iter()
    .map(|n| n.to_string())
    .collect();
    for s in ["00", "01", "0002147483647", "0002147483648", "00000000000000000000000000001", "18446744073709551616", "18446744073709551617", "340282366920938463463374607431768211457"] {
        nums.push(s.into());
    }
    let ctx1 = [
        "R@", "R@'", "@R", "@R2", "@R@", "@-2R", "2-@R", "@-@R", "R@+", "R@-", "@R@+", "(R)@", "(R)@'",
        "[R, U]@", "[R: U]@'", "(@, 0)", "(0, @)", "(-@, 0)", "(0, -@)", "(@, -@)", "()@", "R@ U",
        "(R@ U)", "[R@: U@']@", "R@++", "@R++", "@R--", "@R'", "R@ U@", "x@y", "_@", "R (@, 1)", "@",
        "'@", "R'@", "R@''", "R@+'", "R@-@", "@ R", "@-R", "R@\nU@", "[R,U]@[U,R]", "(R)@(U)@",
    ];
    for c in ctx1 {
        for n in &nums {
            if cx.mine() {
                let s = c.replace('@', n);
                cx.case("both", || s.clone(), || both(&s));
            }
        }
    }
    for (a, b) in nums.iter().flat_map(|a| nums.iter().map(move |b| (a, b))) {
        if cx.mine() {
            for s in [
                format!("{}R{}'", a, b),
                format!("{}-{}Rw", a, b),
                format!("({}, -{})", a, b),
                format!("(R{})@{}", a, b).replace('@', ""),
                format!("[R{}, U]{}'", a, b),
            ] {
                cx.case("both", || s.clone(), || both(&s));
            }
        }
    }
    // all single edits (thorough: all pairs of edits on short seeds) of seed algs
    let mut edit_syms: Vec<&str> = FULL.to_vec();
    edit_syms.extend(["\t", "\r", "é", "*", "9", "Z"]);
    let edits = |s: &str, f: &mut dyn FnMut(&str)| {
        let cs: Vec<char> = s.chars().collect();
        for i in 0..=cs.len() {
            let pre: String = cs[..i].iter().collect();
            let post: String = cs[i..].iter().collect();
            for e in &edit_syms {
                f(&format!("{}{}{}", pre, e, post));
            }
            if i < cs.len() {
                let post1: String = cs[i + 1..].iter().collect();
                f(&format!("{}{}", pre, post1));
                for e in &edit_syms {
                    f(&format!("{}{}{}", pre, e, post1));
                }
                f(&pre);
                f(&post);
                if i + 1 < cs.len() {
                    let post2: String = cs[i + 2..].iter().collect();
                    f(&format!("{}{}{}{}", pre, cs[i + 1], cs[i], post2));
                }
            }
        }
    };
    for s in SEEDS {
        let two = t || s.len() <= 10;
        edits(s, &mut |x| {
            if cx.mine() {
                cx.case("both", || x.to_string(), || both(x));
                if two {
                    edits(x, &mut |y| cx.case("both", || y.to_string(), || both(y)));
                }
            }
        });
    }
    // long flat algs
    for (unit, n) in [
        ("R ", 50_000),
        ("R U2' ", 20_000),
        (".\n", 30_000),
        ("// c\n", 20_000),
        ("(R) ", 20_000),
        ("[R, U] ", 20_000),
        ("(1, -2) / ", 10_000),
        ("R", 50_000),
        ("R'", 20_000),
        (" ", 50_000),
        ("2", 5_000),
        ("0", 50_000),
        ("-", 5_000),
        ("'", 5_000),
        ("(", 300),
        (")", 5_000),
        ("//", 50_000),
        ("/ ", 30_000),
    ] {
        if cx.mine() {
            for tail in ["", "R", "%", ")", "2147483648"] {
                let s = format!("{}{}", unit.repeat(n), tail);
                cx.case(
                    "long",
                    || format!("{}|{}|{}", unit, n, tail),
                    || check_alg(&s),
                );
            }
        }
    }
    // lengths at which something could be cut off, of every kind of text
    let mut lens = vec![];
    for b in 6..=if t { 20 } else { 17 } {
        lens.extend([(1usize << b) - 1, 1 << b, (1 << b) + 1]);
    }
    lens.extend([100, 1000, 10_000, 100_000]);
    for n in lens {
        for (k, (head, unit, tail)) in LONG.iter().enumerate() {
            if cx.mine() {
                for tail in [tail.to_string(), format!("{}%", tail)] {
                    let s = format!("{}{}{}", head, unit.repeat((n - head.len().min(n)) / unit.len()), tail);
                    cx.case("lengths", || format!("{} {}", n, k), || check_alg(&s));
                }
            }
        }
    }
    // every character in every context
    let ctxs = [
        "@", "R@", "@R", "R @", "R@U", "//@", "// a@b", "(@)", "[@, R]", "[R@ U]", "2@R", "R2@", "R2@'",
        "2-@3R", "(@1, 2)", "(1,@2)", "(1, 2@)", ".@", "/@", "R+@", "R++@", "R3+@", "R\n@", "R@\n", "R'@",
    ];
    let hi = if t { 0x110000 } else { 0x3000 };
    let special = [
        0xfeffu32, 0xff11, 0xff32, 0x2019, 0x2032, 0x200b, 0x2028, 0x2029, 0x1d7d8, 0x10ffff, 0xfffd,
        0x20e3, 0x1f600, 0xfe0f, 0x0660, 0x0966, 0xffff, 0x10000,
    ];
    for c in (0..hi).chain(special) {
        let Some(c) = char::from_u32(c) else { continue };
        if cx.mine() {
            for x in ctxs {
                let s = x.replace('@', &c.to_string());
                cx.case("both", || s.clone(), || both(&s));
            }
        }
    }
    // pathological depth, in a child process
    for (o, d) in [("(", 200_000), ("[", 200_000), ("[R: ", 200_000)] {
        if cx.mine() {
            cx.case("deep", || format!("{}|{}", o, d), || deep(o, d));
        }
    }
    for s in SEEDS {
        cx.sample(format!("{:?} => {:?}", s, rparse(s).map(|a| a.len())));
    }
}
fn deep(o: &str, d: usize) -> Result<(), String> {
    let s = o.repeat(d);
    trace(1);
    match in_child(10, || s.parse::<Alg>().is_err() as i32) {
        ChildEnd::Code(1) => Ok(()),
        e => Err(format!("{} × {:?}: {:?}", d, o, e)),
    }
}
fn replay(kind: &str, case: &str) -> Result<(), String> {
    match kind {
        "alg" => check_alg(case),
        "long" => {
            let v: Vec<&str> = case.splitn(3, '|').collect();
            check_alg(&format!("{}{}", v[0].repeat(v[1].parse().unwrap()), v[2]))
        }
        "deep" => {
            let (o, d) = case.split_once('|').unwrap();
            deep(o, d.parse().unwrap())
        }
        _ => both(case),
    }
}
