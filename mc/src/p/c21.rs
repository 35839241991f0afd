//! C21: the alg command.
use crate::bind::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use cubing::alg::*;
use std::io::Write;
use std::process::{Command, Stdio};

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        level: "model_checking",
        rule: "Every token sequence up to a length, structured longer texts, whitespace, long and non-ASCII texts, run through the real program: both subcommands, as an argument (after -- and, where it cannot be mistaken for an option, without) and on standard input. Exit status and standard output must be those the notation (reference parser) and the library's inverse give. states = distinct texts, transitions and traces = program runs.",
        assumptions: &["texts are given as the last argument; a text beginning with - is given after --"],
        explore: explore_,
        replay,
        hang_s: 120,
        nshards: 8,
    }
}
#[derive(Debug, PartialEq)]
struct Out {
    code: Option<i32>,
    stdout: Vec<u8>,
}
fn run(args: &[&str], input: Option<&str>) -> Result<Out, String> {
    let exe = std::env::var("MC_ALG").map_err(|_| "MC_ALG is not set")?;
    let mut c = Command::new(exe);
    c.args(args).stdout(Stdio::piped()).stderr(Stdio::null());
    c.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut ch = c.spawn().map_err(|e| e.to_string())?;
    if let Some(i) = input {
        let mut si = ch.stdin.take().unwrap();
        let _ = si.write_all(i.as_bytes());
    }
    let o = ch.wait_with_output().map_err(|e| e.to_string())?;
    trans(1);
    trace(1);
    Ok(Out { code: o.status.code(), stdout: o.stdout })
}
fn check(s: &str) -> Result<(), String> {
    state_of(s);
    let ok = rparse(s).is_some();
    let want_parse = if ok { 0 } else { 1 };
    let want_inv = if ok {
        let a: Alg = s.parse().map_err(|_| "the library refuses a valid alg")?;
        Out { code: Some(0), stdout: format!("{}\n", a.invert()).into_bytes() }
    } else {
        Out { code: Some(1), stdout: vec![] }
    };
    let mut modes: Vec<(&str, Vec<&str>, Option<&str>)> = vec![("--stdin", vec!["--stdin"], Some(s))];
    if !s.contains('\0') && s.len() < 100_000 {
        modes.push(("argument after --", vec!["--", s], None));
        if !s.starts_with('-') {
            modes.push(("argument", vec![s], None));
        }
    }
    for (name, args, input) in modes {
        let mut a = vec!["parse"];
        a.extend(&args);
        let o = run(&a, input)?;
        if o.code != Some(want_parse) || !o.stdout.is_empty() {
            return Err(format!("alg parse ({}): exit {:?}, stdout {:?}; want exit {}", name, o.code, String::from_utf8_lossy(&o.stdout), want_parse));
        }
        a[0] = "invert";
        let o = run(&a, input)?;
        if o != want_inv {
            return Err(format!("alg invert ({}): exit {:?}, stdout {:?}; want {:?} {:?}", name, o.code, String::from_utf8_lossy(&o.stdout), want_inv.code, String::from_utf8_lossy(&want_inv.stdout)));
        }
    }
    Ok(())
}
extern "C" {
    fn ioctl(fd: i32, request: std::ffi::c_ulong, ...) -> i32;
}
/// Waits until the program has read everything written so far, or has ended.
fn drained(ch: &mut std::process::Child, fd: i32) -> Result<(), String> {
    let until = std::time::Instant::now() + std::time::Duration::from_secs(20);
    loop {
        let mut n: i32 = 0;
        // FIONREAD: the bytes that are still in the pipe
        if unsafe { ioctl(fd, 0x541b, &mut n as *mut i32) } != 0 {
            return Err("machinery: the pipe cannot be asked".into());
        }
        if n == 0 || ch.try_wait().map_err(|e| e.to_string())?.is_some() {
            return Ok(());
        }
        if std::time::Instant::now() > until {
            return Err("the program does not read its standard input".into());
        }
        std::thread::sleep(std::time::Duration::from_micros(100));
    }
}
/// Standard input that arrives in pieces: cut at `cuts` (byte offsets), each piece read before the next is written.
fn pieces(s: &str, cuts: &[usize]) -> Result<(), String> {
    use std::os::fd::AsRawFd;
    state_of(&(s, cuts));
    let exe = std::env::var("MC_ALG").map_err(|_| "MC_ALG is not set")?;
    let ok = rparse(s).is_some();
    for sub in ["parse", "invert"] {
        let mut ch = Command::new(&exe).args([sub, "--stdin"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
        let mut si = ch.stdin.take().unwrap();
        let mut from = 0;
        for to in cuts.iter().copied().chain([s.len()]) {
            let _ = si.write_all(&s.as_bytes()[from..to]);
            let fd = si.as_raw_fd();
            drained(&mut ch, fd)?;
            from = to;
        }
        drop(si);
        let o = ch.wait_with_output().map_err(|e| e.to_string())?;
        trans(1);
        trace(1);
        let want = match (ok, sub) {
            (true, "invert") => format!("{}\n", s.parse::<Alg>().map_err(|_| "the library refuses a valid alg")?.invert()),
            _ => String::new(),
        };
        let code = if ok { 0 } else { 1 };
        ensure(o.status.code() == Some(code) && o.stdout == want.as_bytes(), || format!("alg {} --stdin, in pieces: exit {:?}, stdout {:?}; want {} {:?}", sub, o.status.code(), String::from_utf8_lossy(&o.stdout), code, want))?;
    }
    Ok(())
}
const PIECES: [&str; 12] = ["R U\nF", "R U\n", "\n\nR", "R // c\nU", "(R U)2'", "[R, U]", "R\r\nU", "R U )", "// \u{e9}\u{1f600}\n2-3Rw2'", "", "R U2' D // \u{e9}", "(1, -2) / UR3+\nD--\n[F: B]\n"];
/// Texts that are not UTF-8 (and therefore not algs).
const BYTES: [&[u8]; 10] = [b"\xff", b"R U \xff", b"\xffR", b"R\x80U", b"// \xe9", b"R\xc0\xa0U", b"R \xed\xa0\x80", b"\xef\xbb", b"R U\xe2\x80", b"\xfeR\0"];
fn bytes(b: &[u8]) -> Result<(), String> {
    use std::os::unix::ffi::OsStrExt;
    let exe = std::env::var("MC_ALG").map_err(|_| "MC_ALG is not set")?;
    state_of(b);
    for sub in ["parse", "invert"] {
        for arg in [false, true] {
            if arg && b.contains(&0) {
                continue;
            }
            let mut c = Command::new(&exe);
            c.arg(sub).stdout(Stdio::piped()).stderr(Stdio::null());
            if arg {
                c.arg("--").arg(std::ffi::OsStr::from_bytes(b)).stdin(Stdio::null());
            } else {
                c.arg("--stdin").stdin(Stdio::piped());
            }
            let mut ch = c.spawn().map_err(|e| e.to_string())?;
            if let Some(mut i) = ch.stdin.take() {
                let _ = i.write_all(b);
            }
            let o = ch.wait_with_output().map_err(|e| e.to_string())?;
            trans(1);
            trace(1);
            ensure(o.status.code() != Some(0) && o.stdout.is_empty(), || format!("alg {}: bytes that are not UTF-8 were accepted", sub))?;
        }
    }
    Ok(())
}
/// Command lines and whether they succeed (with something on standard output).
fn usages() -> Vec<(Vec<&'static str>, bool)> {
    let mut v = vec![];
    for sub in ["parse", "invert"] {
        v.push((vec![sub], false));
        v.push((vec![sub, "R", "--stdin"], false));
        v.push((vec![sub, "--stdin", "--", "R"], false));
        v.push((vec![sub, "R", "U"], false));
        v.push((vec![sub, "--no-such-option", "R"], false));
    }
    v.push((vec![], false));
    v.push((vec!["expand", "R"], false));
    v.push((vec!["completions"], false));
    v.push((vec!["completions", "no-such-shell"], false));
    for sh in ["bash", "zsh", "fish", "elvish", "powershell"] {
        v.push((vec!["completions", sh], true));
    }
    v
}
fn usage(i: usize) -> Result<(), String> {
    let (args, good) = &usages()[i];
    let o = run(args, Some("R U"))?;
    state_of(args);
    ensure((o.code == Some(0)) == *good, || format!("alg {:?}: exit {:?}", args, o.code))?;
    ensure(o.stdout.is_empty() != *good, || format!("alg {:?}: standard output: {}", args, String::from_utf8_lossy(&o.stdout)))?;
    if *good {
        let text = String::from_utf8(o.stdout).map_err(|e| e.to_string())?;
        for w in ["parse", "invert", "stdin"] {
            ensure(text.contains(w), || format!("alg {:?}: the completions lack {}", args, w))?;
        }
    }
    Ok(())
}
fn long(k: usize) -> String {
    match k {
        0 => "R U2' (1, -2) / [F: B'] ".repeat(40_000) + "D",
        1 => "R U2' (1, -2) / [F: B'] ".repeat(40_000),
        2 => "(".repeat(400) + "R" + &")2'".repeat(400),
        3 => "[R, ".repeat(200) + "U" + &"]".repeat(200),
        4 => "R\n".repeat(5000),
        5 => "// comment (R U\n".repeat(3000),
        6 => "R".repeat(90_000),
        7 => "R U ".repeat(20_000) + "(",
        _ => "// \u{1f600} \u{e9}".repeat(2000),
    }
}
fn explore_(cx: &mut Cx) {
    let go = |cx: &mut Cx, s: &str| {
        if cx.mine() {
            cx.case("text", || serde_json::to_string(s).unwrap(), || check(s));
        }
    };
    let tok = ["R", "U2'", " ", "(", ")", "[", "]", ",", ": ", "'", "/", "\n", "// c", ".", "-"];
    for n in 0..=(if cx.thorough { 4 } else { 3 }) {
        strings(&tok, n, &mut |s| go(cx, s));
    }
    let words = ["2-3Rw2'", "(R U)3'", "[R, U]", "[R: U2']2", "(1, -2)", "/", "R++", "D--", "UR3+", "DL2-", "//x y\n", "\n", ".", "(R))", "[R U]", "2-R", "R99999999999", "(1, )", "\u{e9}", "--help", "-h", "\r\n", "\t", "", "%", "U0"];
    for n in 1..=(if cx.thorough { 3 } else { 2 }) {
        seqs(words.len(), n, &mut |i| {
            let s = i.iter().map(|i| words[*i]).collect::<Vec<_>>().join(" ");
            go(cx, &s);
            if n < 3 {
                go(cx, &(s.clone() + "\n"));
                go(cx, &i.iter().map(|i| words[*i]).collect::<String>());
            }
        });
    }
    for c in 1..=255u32 {
        let c = char::from_u32(c).unwrap();
        go(cx, &c.to_string());
        go(cx, &format!("R{}U", c));
    }
    let all = cx.thorough;
    // characters that look like, or are often treated like, notation or nothing at all
    let odd = |c: u32| matches!(c, 0x80..=0xff | 0x2b0..=0x2ff | 0x300..=0x30f | 0x660..=0x669 | 0x1680 | 0x180e | 0x2000..=0x206f | 0x2190..=0x2193 | 0x2212 | 0x2215 | 0x3000..=0x3002 | 0xfe00..=0xfe0f | 0xfeff | 0xff01..=0xff5e | 0xfff9..=0xffff | 0x1f600 | 0xe0001 | 0x10ffff);
    for c in (1..0x110000u32).filter(|c| odd(*c) || all && *c < 0x3100).filter_map(char::from_u32) {
        for s in [format!("{}R U", c), format!("R U{}", c), format!("R{}", c), format!("R {} U", c)] {
            go(cx, &s);
        }
        go(cx, &format!("// {}\nR", c));
    }
    // the cuts are byte offsets: also inside a character
    for s in PIECES {
        let n = s.len();
        let mut cuts: Vec<Vec<usize>> = (0..=n).map(|i| vec![i]).collect();
        cuts.push((1..n.max(1)).collect());
        for i in 0..n {
            for j in (i + 1..n).filter(|j| all || (i + j) % 5 == 0) {
                cuts.push(vec![i, j]);
            }
        }
        for c in cuts {
            if cx.mine() {
                cx.case("pieces", || serde_json::to_string(&(s, &c)).unwrap(), || pieces(s, &c));
            }
        }
    }
    for n in [4096usize, 65535, 65536, 65537, 200_000] {
        for c in [vec![1], vec![n / 2], vec![n - 1], vec![4096.min(n), 8192.min(n)]] {
            if cx.mine() {
                cx.case("pieces of a long text", || serde_json::to_string(&(n, &c)).unwrap(), || pieces(&"R U2\n".repeat(n / 5 + 1)[..n], &c));
            }
        }
    }
    for (i, _) in BYTES.iter().enumerate() {
        if cx.mine() {
            cx.case("bytes", || i.to_string(), || bytes(BYTES[i]));
        }
    }
    for i in 0..usages().len() {
        if cx.mine() {
            cx.case("usage", || i.to_string(), || usage(i));
        }
    }
    for k in 0..9 {
        if cx.mine() {
            cx.case("long", || k.to_string(), || check(&long(k)));
        }
    }
}
fn replay(kind: &str, case: &str) -> Result<(), String> {
    if kind == "bytes" {
        return bytes(BYTES[case.parse::<usize>().map_err(|_| "number")?]);
    }
    if kind == "pieces" {
        let (s, c): (String, Vec<usize>) = serde_json::from_str(case).map_err(|_| "case")?;
        return pieces(&s, &c);
    }
    if kind == "pieces of a long text" {
        let (n, c): (usize, Vec<usize>) = serde_json::from_str(case).map_err(|_| "case")?;
        return pieces(&"R U2\n".repeat(n / 5 + 1)[..n], &c);
    }
    if kind == "usage" {
        return usage(case.parse().map_err(|_| "number")?);
    }
    if kind == "long" {
        return check(&long(case.parse().map_err(|_| "number")?));
    }
    check(&serde_json::from_str::<String>(case).map_err(|_| "text")?)
}
