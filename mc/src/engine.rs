//! Exhaustive-exploration engine: shards a deterministic enumeration over forked workers,
//! runs every case against the real code, records panics, crashes and hangs as violations,
//! counts states / transitions / traces, writes evidence, replays and verdicts.
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub const CASE_BUF: usize = 1 << 20;
const BITMAP_BITS: u64 = 1 << 31;

#[repr(C)]
struct Slot {
    idx: AtomicU64,
    done: AtomicU64,
    case_len: AtomicU64,
    case: [u8; CASE_BUF],
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static TRANS: Cell<u64> = const { Cell::new(0) };
    static TRACES: Cell<u64> = const { Cell::new(0) };
}
static mut BITMAP: *mut u8 = std::ptr::null_mut();

/// Record a visited state (or distinct observed outcome) by hash.
pub fn state(h: u64) {
    // splitmix finalizer
    let mut z = h.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^= z >> 31;
    let bit = z % BITMAP_BITS;
    unsafe {
        if BITMAP.is_null() {
            return;
        }
        let p = &*(BITMAP.add((bit / 8) as usize) as *const std::sync::atomic::AtomicU8);
        let m = 1u8 << (bit % 8);
        if p.load(Relaxed) & m == 0 {
            p.fetch_or(m, Relaxed);
        }
    }
}
pub fn hash_of<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
pub fn state_of<T: std::hash::Hash + ?Sized>(t: &T) {
    state(hash_of(t))
}
/// Count transitions taken (operations of the model applied).
pub fn trans(n: u64) {
    TRANS.with(|t| t.set(t.get() + n))
}
/// Count traces executed on the implementation and compared with the model.
pub fn trace(n: u64) {
    TRACES.with(|t| t.set(t.get() + n))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Violation {
    pub property: String,
    pub kind: String,
    pub case: String,
    pub message: String,
    pub tier: String,
    pub shard: usize,
    pub nshards: usize,
    pub idx: u64,
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    transitions: u64,
    traces: u64,
    known_hits: Vec<String>,
    caps: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Known {
    pub property: String,
    #[serde(default)]
    pub kind: String,
    #[serde(default)]
    pub case: String,
    pub what: String,
    pub status: String,
}

pub struct Cx {
    pub prop: &'static str,
    pub thorough: bool,
    pub shard: usize,
    pub nshards: usize,
    round: u64,
    idx: u64,
    locate: Option<u64>,
    slot: *mut Slot,
    out: WorkerOut,
    out_path: String,
    known: Vec<Known>,
    max_viol: usize,
}

pub enum Stop {}

impl Cx {
    /// Round-robin work division: true when the next unit of work belongs to this worker.
    pub fn mine(&mut self) -> bool {
        let r = self.round;
        self.round += 1;
        (r % self.nshards as u64) as usize == self.shard
    }
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(c) = self.out.counters.get_mut(name) {
            *c += n;
        } else {
            self.out.counters.insert(name.to_owned(), n);
        }
    }
    pub fn sample(&mut self, s: String) {
        if self.shard == 0 && self.out.samples.len() < 12 {
            self.out.samples.push(s.chars().take(400).collect());
        }
    }
    pub fn cap(&mut self, s: String) {
        if !self.out.caps.contains(&s) {
            self.out.caps.push(s);
        }
    }
    /// Run one case. `enc` gives its replayable encoding, `f` executes it on the real code.
    pub fn case<E: FnOnce() -> String, F: FnOnce() -> Result<(), String>>(
        &mut self,
        kind: &str,
        enc: E,
        f: F,
    ) {
        self.idx += 1;
        let slot = unsafe { &*self.slot };
        slot.idx.store(self.idx, Relaxed);
        let mut enc = Some(enc);
        if let Some(l) = self.locate {
            if l == self.idx {
                let s = format!("{}\u{0}{}", kind, (enc.take().unwrap())());
                let b = s.as_bytes();
                let n = b.len().min(CASE_BUF);
                unsafe {
                    std::ptr::copy_nonoverlapping(b.as_ptr(), (*self.slot).case.as_mut_ptr(), n)
                };
                slot.case_len.store(n as u64, Relaxed);
                let r = guarded(f);
                if let Err(m) = r {
                    self.out.violations.push(Violation {
                        property: self.prop.into(),
                        kind: kind.into(),
                        case: String::new(),
                        message: m,
                        tier: String::new(),
                        shard: self.shard,
                        nshards: self.nshards,
                        idx: self.idx,
                    });
                }
                self.finish();
            }
        }
        let seen = self.out.counters.get(kind).copied().unwrap_or(0);
        let mut text = None;
        if self.shard == 0 && (seen == 3 || seen == 300) && self.out.samples.len() < 40 {
            let s = (enc.take().unwrap())();
            self.out.samples.push(format!("{}: {}", kind, s.chars().take(300).collect::<String>()));
            text = Some(s);
        }
        if let Err(message) = guarded(f) {
            if self.locate.is_some() {
                return; // only interested in the located case
            }
            let case = text.unwrap_or_else(|| (enc.take().unwrap())());
            self.violate(kind, case, message);
        }
        self.count(kind, 1);
    }
    pub fn violate(&mut self, kind: &str, case: String, message: String) {
        if let Some(k) = self.known.iter().find(|k| {
            k.status == "known" && k.property == self.prop && k.kind == kind && k.case == case
        }) {
            if !self.out.known_hits.contains(&k.what) {
                self.out.known_hits.push(k.what.clone());
            }
            return;
        }
        self.out.violations.push(Violation {
            property: self.prop.into(),
            kind: kind.into(),
            case,
            message,
            tier: if self.thorough { "thorough" } else { "quick" }.into(),
            shard: self.shard,
            nshards: self.nshards,
            idx: self.idx,
        });
        if self.out.violations.len() >= self.max_viol {
            self.finish();
        }
    }
    fn finish(&mut self) -> ! {
        self.out.transitions = TRANS.with(|t| t.get());
        self.out.traces = TRACES.with(|t| t.get());
        let s = serde_json::to_vec(&self.out).unwrap();
        let tmp = format!("{}.tmp", self.out_path);
        let ok = std::fs::write(&tmp, s).is_ok() && std::fs::rename(&tmp, &self.out_path).is_ok();
        unsafe {
            (*self.slot).done.store(1, Relaxed);
            libc::_exit(if ok { 0 } else { 3 })
        }
    }
}

/// Run `f`, turning panics into an error message.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!(
            "panicked: {}",
            PANIC_MSG.with(|m| m.borrow().clone())
        )),
    }
}
/// Did `f` panic? Returns its value otherwise.
pub fn panics<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    guarded(|| Ok(f()))
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC_MSG.try_with(|m| *m.borrow_mut() = format!("{}{}", msg, loc));
    }));
}

pub fn silence_stderr() {
    unsafe {
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if fd >= 0 {
            libc::dup2(fd, 2);
        }
    }
}

unsafe fn map_shared(n: usize) -> *mut u8 {
    let p = libc::mmap(
        std::ptr::null_mut(),
        n,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub explore: fn(&mut Cx),
    pub replay: fn(&str, &str) -> Result<(), String>,
    /// seconds without progress before a case counts as a hang
    pub hang_s: u64,
    pub nshards: usize,
}

pub fn scratch_dir() -> String {
    std::env::var("MC_SCRATCH").unwrap_or_else(|_| "/tmp".into())
}
pub fn verif_dir() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

enum End {
    Ok,
    Crash(i32),
    Hang,
    Code(i32),
}

fn spawn(
    p: &Prop,
    thorough: bool,
    shard: usize,
    slot: *mut Slot,
    locate: Option<u64>,
    out_path: &str,
    known: &[Known],
) -> i32 {
    unsafe {
        (*slot).idx.store(0, Relaxed);
        (*slot).done.store(0, Relaxed);
        (*slot).case_len.store(0, Relaxed);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid != 0 {
            return pid;
        }
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        silence_stderr();
        install_panic_hook();
        let mut cx = Cx {
            prop: p.id,
            thorough,
            shard,
            nshards: p.nshards,
            round: 0,
            idx: 0,
            locate,
            slot,
            out: WorkerOut::default(),
            out_path: out_path.into(),
            known: known.to_vec(),
            max_viol: 3,
        };
        // The code between the cases only does what every case relies on: a panic
        // there is the library's, unless it says that the system refused something.
        if let Err(m) = guarded(|| {
            (p.explore)(&mut cx);
            Ok(())
        }) {
            if m.contains("Os {") || m.contains("os error") {
                libc::_exit(101)
            }
            if locate.is_none() || cx.out.violations.is_empty() {
                cx.violate("between", format!("after case {}", cx.idx), m);
            }
        }
        cx.finish()
    }
}

fn wait_all(pids: &[(usize, i32, *mut Slot)], hang_s: u64) -> Vec<(usize, End)> {
    let mut left: Vec<(usize, i32, *mut Slot, u64, Instant)> =
        pids.iter().map(|&(s, p, sl)| (s, p, sl, 0, Instant::now())).collect();
    let mut ends = vec![];
    while !left.is_empty() {
        std::thread::sleep(Duration::from_millis(5));
        left.retain_mut(|(s, pid, slot, last, since)| {
            let mut st = 0;
            let r = unsafe { libc::waitpid(*pid, &mut st, libc::WNOHANG) };
            if r == *pid {
                if libc::WIFSIGNALED(st) {
                    ends.push((*s, End::Crash(libc::WTERMSIG(st))));
                } else {
                    let c = libc::WEXITSTATUS(st);
                    ends.push((*s, if c == 0 { End::Ok } else { End::Code(c) }));
                }
                return false;
            }
            let idx = unsafe { (**slot).idx.load(Relaxed) };
            if idx != *last {
                *last = idx;
                *since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(hang_s) {
                unsafe {
                    libc::kill(*pid, libc::SIGKILL);
                    libc::waitpid(*pid, &mut st, 0);
                }
                ends.push((*s, End::Hang));
                return false;
            }
            true
        });
    }
    ends
}

pub fn load_known() -> Vec<Known> {
    let p = format!("{}/known_findings.json", verif_dir());
    match std::fs::read(&p) {
        Ok(b) => serde_json::from_slice(&b).expect("known_findings.json is malformed"),
        Err(_) => vec![],
    }
}

pub fn run(p: &Prop) -> i32 {
    let t0 = Instant::now();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known = load_known();
    let dir = format!("{}/mc-{}-{}", scratch_dir(), p.id, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let slots = unsafe {
        BITMAP = map_shared((BITMAP_BITS / 8) as usize);
        map_shared(std::mem::size_of::<Slot>() * p.nshards) as *mut Slot
    };
    let mut pids = vec![];
    for s in 0..p.nshards {
        let slot = unsafe { slots.add(s) };
        let out = format!("{}/{}.json", dir, s);
        pids.push((s, spawn(p, thorough, s, slot, None, &out, &known), slot));
    }
    // two waits must fit into the time a quick check has
    let hang_s = if thorough { p.hang_s } else { p.hang_s.min(200) };
    let mut ends = wait_all(&pids, hang_s);
    ends.sort_by_key(|e| e.0);
    let mut total = WorkerOut::default();
    let mut engine_error: Option<String> = None;
    for (s, e) in ends {
        let slot = unsafe { slots.add(s) };
        let out = format!("{}/{}.json", dir, s);
        match e {
            End::Ok => {
                let w: WorkerOut = serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap();
                for (k, v) in w.counters {
                    *total.counters.entry(k).or_insert(0) += v;
                }
                total.transitions += w.transitions;
                total.traces += w.traces;
                total.samples.extend(w.samples);
                total.violations.extend(w.violations);
                for k in w.known_hits {
                    if !total.known_hits.contains(&k) {
                        total.known_hits.push(k);
                    }
                }
                for k in w.caps {
                    if !total.caps.contains(&k) {
                        total.caps.push(k);
                    }
                }
            }
            End::Crash(sig)
                if ![libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE]
                    .contains(&sig) =>
            {
                engine_error = Some(format!("worker {} killed by signal {}", s, sig));
            }
            End::Code(c) => engine_error = Some(format!("worker {} exited with {}", s, c)),
            End::Crash(_) | End::Hang if !total.violations.is_empty() => {}
            End::Crash(_) | End::Hang => {
                // Find the case by re-running the deterministic enumeration up to it.
                let what = match e {
                    End::Crash(sig) => format!("process died with signal {}", sig),
                    _ => format!("no progress for {} s", hang_s),
                };
                let idx = unsafe { (*slot).idx.load(Relaxed) };
                let out2 = format!("{}/{}.locate.json", dir, s);
                let pid = spawn(p, thorough, s, slot, Some(idx), &out2, &known);
                let e2 = wait_all(&[(s, pid, slot)], hang_s);
                let n = unsafe { (*slot).case_len.load(Relaxed) } as usize;
                let bytes = unsafe { std::slice::from_raw_parts((*slot).case.as_ptr(), n) };
                let txt = String::from_utf8_lossy(bytes).to_string();
                let (kind, case) = txt.split_once('\u{0}').unwrap_or(("?", ""));
                let again = !matches!(e2[0].1, End::Ok | End::Code(_));
                if n == 0 && matches!(e2[0].1, End::Crash(_)) && matches!(e, End::Crash(_)) {
                    total.violations.push(Violation {
                        property: p.id.into(),
                        kind: "between".into(),
                        case: format!("after case {}", idx),
                        message: what,
                        tier: if thorough { "thorough" } else { "quick" }.into(),
                        shard: s,
                        nshards: p.nshards,
                        idx,
                    });
                } else if n == 0 || !again {
                    engine_error = Some(format!(
                        "worker {}: {} at case {} but not when repeated",
                        s, what, idx
                    ));
                } else if let Some(k) = known.iter().find(|k| {
                    k.status == "known" && k.property == p.id && k.kind == kind && k.case == case
                }) {
                    engine_error = Some(format!("known finding {:?} must be isolated", k));
                } else {
                    total.violations.push(Violation {
                        property: p.id.into(),
                        kind: kind.into(),
                        case: case.into(),
                        message: what,
                        tier: if thorough { "thorough" } else { "quick" }.into(),
                        shard: s,
                        nshards: p.nshards,
                        idx,
                    });
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let states: u64 = unsafe {
        let w = std::slice::from_raw_parts(BITMAP as *const u64, (BITMAP_BITS / 64) as usize);
        w.iter().map(|x| x.count_ones() as u64).sum()
    };
    let cases: u64 = total.counters.values().sum();
    let samples = if total.samples.is_empty() { vec!["-".to_string()] } else { total.samples.clone() };
    let mut cov = serde_json::json!({
        "rule": p.rule,
        "samples": samples,
        "by_kind": total.counters,
        "exhaustive": total.caps.is_empty() && engine_error.is_none() && total.violations.is_empty(),
        "workers": p.nshards,
        "caps_hit": total.caps,
        "states_note": "distinct state/outcome hashes in a shared 2^31-bit map (a lower bound)",
    });
    let m = cov.as_object_mut().unwrap();
    if p.level == "model_checking" {
        m.insert("states".into(), states.into());
        m.insert("transitions".into(), total.transitions.into());
        m.insert("traces_validated_against_impl".into(), total.traces.into());
        m.insert("cases".into(), cases.into());
    } else {
        m.insert("evaluations".into(), cases.into());
        m.insert("distinct_nontrivial".into(), states.into());
    }
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": p.level,
        "coverage": cov,
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": total.violations.len(),
    });
    let ed = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(
        format!("{}/{}.json", ed, p.id),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    println!(
        "{}: cases={} states={} transitions={} traces={} wall={:.1}s",
        p.id,
        cases,
        states,
        total.transitions,
        total.traces,
        t0.elapsed().as_secs_f64()
    );
    for k in &total.known_hits {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    if !total.violations.is_empty() {
        let rd = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&rd);
        for (i, v) in total.violations.iter().take(5).enumerate() {
            let path = format!("{}/{}-{}.json", rd, p.id, i);
            let _ = std::fs::write(&path, serde_json::to_string_pretty(v).unwrap());
            println!("  {} [{}] {}: {}", p.id, v.kind, trunc(&v.case), trunc(&v.message));
            println!("VIOLATION property={} replay={}", p.id, path);
        }
        return 1;
    }
    if let Some(e) = engine_error {
        println!("ENGINE ERROR: {}", e);
        return 2;
    }
    0
}

#[derive(Debug, PartialEq, Clone)]
pub enum ChildEnd {
    Code(i32),
    Signal(i32),
    Timeout,
}
/// Run `f` in a forked child (so that it may abort) and report how it ended.
pub fn in_child(timeout_s: u64, f: impl FnOnce() -> i32) -> ChildEnd {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let c = match panics(f) {
                Ok(c) => c,
                Err(_) => 101,
            };
            libc::_exit(c)
        }
        let t0 = Instant::now();
        let mut nap = 20;
        loop {
            let mut st = 0;
            let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if r == pid {
                return if libc::WIFSIGNALED(st) {
                    ChildEnd::Signal(libc::WTERMSIG(st))
                } else {
                    ChildEnd::Code(libc::WEXITSTATUS(st))
                };
            }
            if t0.elapsed() > Duration::from_secs(timeout_s) {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                return ChildEnd::Timeout;
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 2).min(2000);
        }
    }
}

pub fn trunc(s: &str) -> String {
    let t: String = s.chars().take(600).collect();
    t.replace('\n', "\\n")
}

/// Replay a recorded violation: first the single case in a fresh process, then, if that does not
/// fail, the deterministic enumeration up to and including it (for history-dependent failures).
pub fn replay(p: &Prop, path: &str) -> i32 {
    let v: Violation = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        install_panic_hook();
        let r = guarded(|| (p.replay)(&v.kind, &v.case));
        match r {
            Ok(()) => {
                println!("single case passes");
                unsafe { libc::_exit(0) }
            }
            Err(m) => {
                println!("REPRODUCED: {}", trunc(&m));
                unsafe { libc::_exit(1) }
            }
        }
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
        println!("status {:#x}", st);
        return 1;
    }
    let slots = unsafe {
        BITMAP = map_shared((BITMAP_BITS / 8) as usize);
        map_shared(std::mem::size_of::<Slot>()) as *mut Slot
    };
    let dir = format!("{}/mc-replay-{}", scratch_dir(), std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let out = format!("{}/o.json", dir);
    let p2 = Prop { nshards: v.nshards, id: p.id, level: p.level, rule: p.rule, assumptions: p.assumptions, explore: p.explore, replay: p.replay, hang_s: p.hang_s };
    let pid = spawn(&p2, v.tier == "thorough", v.shard, slots, Some(v.idx), &out, &[]);
    let e = wait_all(&[(v.shard, pid, slots)], p.hang_s);
    let bad = match e[0].1 {
        End::Ok => {
            let w: WorkerOut = serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap();
            for x in &w.violations {
                println!("REPRODUCED in sequence: {}", trunc(&x.message));
            }
            !w.violations.is_empty()
        }
        End::Code(_) => false,
        _ => {
            println!("REPRODUCED in sequence (crash or hang)");
            true
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    bad as i32
}

/// Run `f` in a forked child and return the bytes it produces (None when it dies).
pub fn fork_out(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    unsafe {
        let mut fd = [0i32; 2];
        assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fd[0]);
            let (code, out) = match panics(f) {
                Ok(v) => (0, v),
                Err(e) => (1, e.into_bytes()),
            };
            let mut at = 0;
            while at < out.len() {
                let n = libc::write(fd[1], out.as_ptr().add(at) as *const libc::c_void, out.len() - at);
                if n <= 0 {
                    libc::_exit(4)
                }
                at += n as usize;
            }
            libc::_exit(code)
        }
        libc::close(fd[1]);
        let mut v = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fd[0], buf.as_mut_ptr() as *mut libc::c_void, buf.len());
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            Some(v)
        } else {
            None
        }
    }
}

/// Report a violation that showed while building (evidence, replay file, verdict).
pub fn failed(id: &str, what: &str, log: &str) -> i32 {
    let log = std::fs::read_to_string(log).unwrap_or_default();
    let v = Violation { property: id.into(), kind: what.into(), case: String::new(), message: log.clone(), tier: "quick".into(), shard: 0, nshards: 1, idx: 0 };
    for d in ["replays", "evidence"] {
        let _ = std::fs::create_dir_all(format!("{}/{}", verif_dir(), d));
    }
    let path = format!("{}/replays/{}-build.json", verif_dir(), id);
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let ev = serde_json::json!({
        "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": 1, "level": "model_checking",
        "coverage": { "rule": what, "samples": [trunc(&log)], "states": 1, "transitions": 1, "traces_validated_against_impl": 0, "exhaustive": false },
        "assumptions": [], "wall_s": 0.0, "violations": 1,
    });
    let _ = std::fs::write(format!("{}/evidence/{}.json", verif_dir(), id), serde_json::to_string_pretty(&ev).unwrap());
    println!("  {} {}: {}", id, what, trunc(&log));
    println!("VIOLATION property={} replay={}", id, path);
    1
}
