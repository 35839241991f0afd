//! C20: the macros agree with run-time parsing.
use crate::engine::*;
use crate::gen::*;
use cubing::alg::*;
use std::collections::{BTreeMap, BTreeSet};
use std::process::{Command, Stdio};

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        level: "model_checking",
        rule: "All move strings from a product of prefixes, families and suffixes, all short strings over the notation's characters, all alg token sequences up to a length, as literals (plain, escaped, raw, multi-line) of both macros in generated programs. Literals that parse at run time must compile and equal the run-time parse when run; every other literal must give a compile error on its own line. states = distinct literals, transitions = expansions, traces = values compared at run time.",
        assumptions: &["the compiler reports an error at the line of the invocation that caused it"],
        explore: explore_,
        replay,
        hang_s: 600,
        nshards: 8,
    }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Kind {
    Move,
    Alg,
}
type Lit = (Kind, String);
fn valid(l: &Lit) -> bool {
    match l.0 {
        Kind::Move => l.1.parse::<Move>().is_ok(),
        Kind::Alg => l.1.parse::<Alg>().is_ok(),
    }
}
/// Rust source of the literal; the form varies with the index.
fn source(s: &str, form: usize) -> String {
    if form % 3 == 1 && !s.contains('\r') && !s.contains('\n') {
        return format!("r#\"{}\"#", s);
    }
    if form % 3 == 2 {
        let mut o = String::from("\"");
        for c in s.chars() {
            o += &format!("\\u{{{:x}}}", c as u32);
        }
        return o + "\"";
    }
    format!("{:?}", s)
}
fn literals(thorough: bool) -> Vec<Lit> {
    let mut out: BTreeSet<Lit> = BTreeSet::new();
    let pre = ["", "0", "1", "2", "10", "02", "4294967295", "4294967296", "1-2", "2-3", "3-2", "0-0", "10-200", "1-4294967296", "1-", "-1", "1-2-3"];
    let fam = ["U", "R", "Rw", "x", "M", "UR", "a_b", "U_SQ_", "_SLASH_", "_", "Zz_z"];
    let suf = ["", "'", "0", "0'", "1", "2", "2'", "10", "02'", "2147483647", "2147483647'", "2147483648", "99999999999", "++", "--", "+", "-", "3+", "3-", "0+", "'2", "''", " "];
    for p in pre {
        for f in fam {
            for s in suf {
                out.insert((Kind::Move, format!("{}{}{}", p, f, s)));
                if thorough || (s.len() < 2 && p.len() < 4) {
                    out.insert((Kind::Alg, format!("{}{}{}", p, f, s)));
                }
            }
        }
    }
    let nums = ["0", "1", "2", "9", "10", "99", "100", "101", "128", "255", "256", "1000", "65535", "65536", "2147483648", "4294967295"];
    for a in nums {
        out.insert((Kind::Move, format!("{}Uw2'", a)));
        for b in nums {
            for s in ["R", "r'", "Uw2'", "x++", "y3-", "z0'"] {
                if thorough || s.len() == 2 || (a.len() < 4 && b.len() < 4) {
                    out.insert((Kind::Move, format!("{}-{}{}", a, b, s)));
                }
            }
        }
    }
    let chars = ["R", "2", "'", "-", "+", "/", " ", "_", "w", "("];
    for n in 0..=(if thorough { 4 } else { 3 }) {
        strings(&chars, n, &mut |s| {
            out.insert((Kind::Move, s.to_string()));
        });
    }
    let tok = ["R", "U2'", "2-3Rw", " ", "(", ")", "[", "]", ", ", ": ", "'", "3", "/", "\n", "// c", ".", "(1, -2)", "R++", "\u{2019}", "\"", "\\"];
    for n in 0..=(if thorough { 4 } else { 3 }) {
        let mut k = 0u64;
        strings(&tok[..if n == 4 { 16 } else { tok.len() }], n, &mut |s| {
            k += 1;
            if n < 4 || s.parse::<Alg>().is_ok() || k % 16 == 0 {
                out.insert((Kind::Alg, s.to_string()));
            }
        });
    }
    for s in ["(R U)2 [R, U']3", "[[R: U], F2]", "(1, 2) / (-3, 0)", "R++ D-- U'\nR++", "UR1+ DL2- ALL3+", "// only", "(R U R' // in\n)", "[R: U] . . F", "((R)2')3", "R U R' U'", "/", "(0, 0)", "(R, U)", "1", "R  ", " R", "R\tU", "é", "R\u{0}"] {
        out.insert((Kind::Alg, s.into()));
        out.insert((Kind::Move, s.into()));
    }
    // every character, alone and at each end
    let special = [0x2000u32, 0x2009, 0x200b, 0x2018, 0x2019, 0x2028, 0x2029, 0x202f, 0x2032, 0x205f, 0x3000, 0xfeff, 0xff11, 0xff32, 0xfffd, 0x1d7d8, 0x1f600, 0x10ffff];
    for c in (0..if thorough { 0x800 } else { 0x180 }).chain(special) {
        let Some(c) = char::from_u32(c) else { continue };
        for s in [format!("{}", c), format!("R{}", c), format!("{}R", c), format!("R2{}", c), format!("R{}U", c), format!("R {} U", c), format!("// {}", c)] {
            out.insert((Kind::Alg, s.clone()));
            if !s.contains(" U") {
                out.insert((Kind::Move, s));
            }
        }
    }
    // long and deep ones
    for n in [8usize, 9, 16, 31, 32, 33, 64, 100, 300] {
        for unit in ["R ", "U2' ", "(R)2 ", "[R, U] ", ". ", "// c\n", "\n"] {
            let s = unit.repeat(n);
            out.insert((Kind::Alg, s.trim_end_matches(' ').into()));
            out.insert((Kind::Alg, format!("{}Q(", s)));
            out.insert((Kind::Alg, s));
        }
        if n <= 64 {
            for (o, c) in [("(", ")"), ("(R ", " U)2'"), ("[R, ", "]"), ("[", ": R]"), ("[", ", R]3")] {
                out.insert((Kind::Alg, super::c01::nest(o, "F", c, n)));
                out.insert((Kind::Alg, super::c01::nest(o, "", c, n)));
                out.insert((Kind::Alg, super::c01::nest(o, "%", c, n)));
            }
            out.insert((Kind::Move, "R".repeat(n) + "2"));
            out.insert((Kind::Move, format!("2{}", "w_R".repeat(n))));
            out.insert((Kind::Move, format!("{}1R", "0".repeat(n))));
            out.insert((Kind::Move, format!("R{}1'", "0".repeat(n))));
        }
    }
    out.into_iter().collect()
}
fn mac(l: &Lit, form: usize) -> String {
    format!("{}!({})", if l.0 == Kind::Move { "parse_move" } else { "parse_alg" }, source(&l.1, form))
}
/// Compile; error lines are keys of the result (0 when an error has no line here).
fn rustc(src: &str, name: &str, bin: bool) -> Result<BTreeMap<usize, String>, String> {
    let dir = format!("{}/c20-{}", scratch_dir(), std::process::id());
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let file = format!("{}/{}.rs", dir, name);
    std::fs::write(&file, src).map_err(|e| e.to_string())?;
    let rlib = std::env::var("MC_RLIB").map_err(|_| "MC_RLIB is not set")?;
    let deps = std::path::Path::new(&rlib).parent().unwrap().to_string_lossy().to_string();
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--crate-name", "gen", "--error-format=json", "-Awarnings", "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "codegen-units=4"]);
    c.args(["--extern", &format!("cubing={}", rlib), "-L", &format!("dependency={}", deps)]);
    if bin {
        c.args(["-o", &format!("{}/{}", dir, name)]);
    } else {
        c.args(["--emit=metadata", "--crate-type=lib", "-o", &format!("{}/{}.rmeta", dir, name)]);
    }
    let out = c.arg(&file).stdin(Stdio::null()).output().map_err(|e| format!("rustc: {}", e))?;
    let mut lines = BTreeMap::new();
    for l in String::from_utf8_lossy(&out.stderr).lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else {
            continue;
        };
        if v["level"] != "error" {
            continue;
        }
        let m = v["message"].as_str().unwrap_or("").to_string();
        if m.starts_with("aborting due to") {
            continue;
        }
        let mut found = vec![];
        fn collect(s: &serde_json::Value, found: &mut Vec<usize>) {
            if s["file_name"].as_str().map(|f| f.ends_with(".rs") && f.contains("/c20-")).unwrap_or(false) {
                found.push(s["line_start"].as_u64().unwrap_or(0) as usize);
            }
            if !s["expansion"].is_null() {
                collect(&s["expansion"]["span"], found);
            }
        }
        for s in v["spans"].as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
            if s["is_primary"] == true {
                collect(s, &mut found);
            }
        }
        if found.is_empty() {
            found.push(0);
        }
        for f in found {
            lines.insert(f, m.clone());
        }
    }
    if !out.status.success() && lines.is_empty() {
        return Err(format!("rustc failed: {}", String::from_utf8_lossy(&out.stderr)));
    }
    Ok(lines)
}
const HEAD: &str = "use cubing::alg::{parse_alg, parse_move, Alg, Move}; fn ck<T: PartialEq + std::fmt::Debug>(n: usize, a: T, b: T) { if a != b || format!(\"{:?}\", a) != format!(\"{:?}\", b) { println!(\"{} {:?} {:?}\", n, a, b) } }\n";
/// Failures as (literal, message).
fn judge_valid(lits: &[Lit], name: &str) -> Result<Vec<(Lit, String)>, String> {
    let mut src = String::from(HEAD);
    // line i + 2 holds literal i
    for (i, l) in lits.iter().enumerate() {
        let t = if l.0 == Kind::Move { "Move" } else { "Alg" };
        src += &format!("fn f{}() {{ let v: {} = {}; ck(\"{}\".len() + {}, v, {:?}.parse::<{}>().unwrap()) }}\n", i, t, mac(l, i), "", i, l.1, t);
    }
    src += "fn main() {\n";
    for i in 0..lits.len() {
        src += &format!("f{}();\n", i);
    }
    src += "println!(\"done\");}\n";
    let errs = rustc(&src, name, true)?;
    if !errs.is_empty() {
        return Ok(errs
            .into_iter()
            .map(|(n, m)| (if n >= 2 && n - 2 < lits.len() { lits[n - 2].clone() } else { (Kind::Alg, format!("line {}", n)) }, format!("valid at run time, but: {}", m)))
            .collect());
    }
    trans(lits.len() as u64);
    let exe = format!("{}/c20-{}/{}", scratch_dir(), std::process::id(), name);
    let out = Command::new(&exe).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut bad = vec![];
    for l in text.lines().filter(|l| *l != "done") {
        let i: usize = l.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0);
        bad.push((lits[i].clone(), format!("the macro's value differs from the run-time parse: {}", l)));
    }
    if bad.is_empty() && !text.contains("done\n") {
        return Err(format!("the program ended with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    trace(lits.len() as u64);
    let _ = std::fs::remove_file(&exe);
    Ok(bad)
}
fn judge_invalid(lits: &[Lit], name: &str) -> Result<Vec<(Lit, String)>, String> {
    let mut src = String::from("use cubing::alg::{parse_alg, parse_move};\n");
    for (i, l) in lits.iter().enumerate() {
        src += &format!("pub fn f{}() {{ let _ = {}; }}\n", i, mac(l, i));
    }
    let errs = rustc(&src, name, false)?;
    trans(lits.len() as u64);
    Ok(lits.iter().enumerate().filter(|(i, _)| !errs.contains_key(&(i + 2))).map(|(_, l)| (l.clone(), "invalid at run time, but the macro gives no error".to_string())).collect())
}
fn show(l: &Lit) -> String {
    format!("{:?} {}", l.0, serde_json::to_string(&l.1).unwrap())
}
fn chunk(cx: &mut Cx, lits: &[Lit], ok: bool, name: &str) {
    let r = guarded(|| if ok { judge_valid(lits, name) } else { judge_invalid(lits, name) });
    match r {
        Err(e) => cx.violate("program", name.to_string(), e),
        Ok(mut bad) => {
            bad.truncate(20);
            for (l, m) in bad {
                cx.violate(if ok { "valid" } else { "invalid" }, show(&l), m);
            }
        }
    }
    cx.count(if ok { "literals valid at run time" } else { "literals invalid at run time" }, lits.len() as u64);
    for l in lits {
        state_of(&show(l));
    }
}
fn explore_(cx: &mut Cx) {
    let all = literals(cx.thorough);
    let (good, bad): (Vec<Lit>, Vec<Lit>) = all.into_iter().partition(valid);
    for (ok, set, size) in [(true, good, 400), (false, bad, 1500)] {
        for (k, c) in set.chunks(size).enumerate() {
            if cx.mine() {
                let name = format!("{}{}", if ok { "v" } else { "i" }, k);
                cx.case("programs", || format!("{} starting with {}", name, show(&c[0])), || Ok(()));
                chunk(cx, c, ok, &name);
            }
        }
    }
    let _ = std::fs::remove_dir_all(format!("{}/c20-{}", scratch_dir(), std::process::id()));
}
fn replay(kind: &str, case: &str) -> Result<(), String> {
    let (k, s) = case.split_once(' ').ok_or("no literal")?;
    let l = (if k == "Move" { Kind::Move } else { Kind::Alg }, serde_json::from_str(s).map_err(|_| "literal")?);
    let r = if kind == "valid" { judge_valid(&[l.clone()], "r")? } else { judge_invalid(&[l.clone()], "r")? };
    let _ = std::fs::remove_dir_all(format!("{}/c20-{}", scratch_dir(), std::process::id()));
    match r.into_iter().next() {
        Some((l, m)) => Err(format!("{}: {}", show(&l), m)),
        None => Ok(()),
    }
}
