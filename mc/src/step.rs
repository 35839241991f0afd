//! Exhaustive preemption exploration of real code by single-stepping (x86-64 trap flag).
//!
//! Thread A runs an operation one instruction at a time. At every instruction of this program's own
//! text the process forks; in the child another thread runs operation B to completion (or until it
//! blocks), then A goes on freely, and both results and the shared state afterwards are checked.
use crate::engine::panics;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicPtr, AtomicU64, Ordering::*};

pub struct Plan<'a> {
    pub a: &'a (dyn Fn() -> u64 + Sync),
    pub b: &'a (dyn Fn() -> u64 + Sync),
    pub after: &'a (dyn Fn() -> u64 + Sync),
    pub want_a: u64,
    pub want_b: u64,
    pub want_after: u64,
    pub shard: u64,
    pub nshards: u64,
    /// preempt at no more than this many occurrences of one instruction
    pub per_rip: u32,
    /// B is stepped too and stopped at each of its instructions (two preemptions): explored by
    /// re-execution for exactly this (i, j) when set
    pub pair: Option<(u64, u64)>,
    /// where `b` blocks, each of these runs in its place too (with its sequential result)
    pub singles: &'a [(&'a (dyn Fn() -> u64 + Sync), u64)],
}
#[derive(Debug, Default, Clone)]
pub struct Report {
    pub steps: u64,
    pub points: u64,
    pub rips: u64,
    pub blocked: u64,
    pub fail: Option<String>,
}
#[repr(C)]
struct Shared {
    blocked: AtomicU64,
    len: AtomicU64,
    msg: [u8; 8000],
}
static PLAN: AtomicPtr<Plan<'static>> = AtomicPtr::new(std::ptr::null_mut());
static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());
static STEPS: AtomicU64 = AtomicU64::new(0);
static POINTS: AtomicU64 = AtomicU64::new(0);
static RIPS: AtomicU64 = AtomicU64::new(0);
static ELIGIBLE: AtomicU64 = AtomicU64::new(0);
static FAILED: AtomicBool = AtomicBool::new(false);
static FAIL_STEP: AtomicU64 = AtomicU64::new(0);
static FAIL_STATUS: AtomicI32 = AtomicI32::new(0);
static IN_CHILD: AtomicBool = AtomicBool::new(false);
/// Which of `singles` runs in place of `b` (-1: none).
static B_PICK: AtomicI32 = AtomicI32::new(-1);
static B_TID: AtomicI32 = AtomicI32::new(0);
static B_DONE: AtomicBool = AtomicBool::new(false);
static B_OUT: AtomicU64 = AtomicU64::new(0);
static B_ERR: AtomicPtr<String> = AtomicPtr::new(std::ptr::null_mut());
static B_PAUSED: AtomicBool = AtomicBool::new(false);
static B_GO: AtomicBool = AtomicBool::new(false);
static B_STEPS: AtomicU64 = AtomicU64::new(0);
static A_TID: AtomicI32 = AtomicI32::new(0);
static TEXT_LO: AtomicU64 = AtomicU64::new(0);
static TEXT_HI: AtomicU64 = AtomicU64::new(0);

const TAB: usize = 1 << 17;
static mut COUNTS: [(u64, u32); TAB] = [(0, 0); TAB];

fn text_range() {
    if TEXT_LO.load(Relaxed) != 0 {
        return;
    }
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let exe = exe.to_string_lossy().to_string();
    for l in maps.lines() {
        if l.contains(" r-xp ") && l.ends_with(&exe) || l.contains(" r-xp ") && l.contains("release/mc") {
            let (a, b) = l.split(' ').next().unwrap().split_once('-').unwrap();
            TEXT_LO.store(u64::from_str_radix(a, 16).unwrap(), Relaxed);
            TEXT_HI.store(u64::from_str_radix(b, 16).unwrap(), Relaxed);
            return;
        }
    }
    panic!("no text mapping found");
}
#[inline(always)]
fn trap_on() {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
#[inline(always)]
fn trap_off() {
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
}
fn tid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}
extern "C" fn b_main(_: *mut libc::c_void) -> *mut libc::c_void {
    B_TID.store(tid(), SeqCst);
    let plan = unsafe { &*PLAN.load(SeqCst) };
    let step = plan.pair.is_some();
    let r = panics(|| {
        if step {
            trap_on();
        }
        let r = match B_PICK.load(SeqCst) {
            -1 => (plan.b)(),
            k => (plan.singles[k as usize].0)(),
        };
        if step {
            trap_off();
        }
        r
    });
    trap_off();
    match r {
        Ok(v) => B_OUT.store(v, SeqCst),
        Err(e) => B_ERR.store(Box::into_raw(Box::new(e)), SeqCst),
    }
    B_DONE.store(true, SeqCst);
    std::ptr::null_mut()
}
/// 'S' when the thread is blocked.
fn thread_state(tid: i32) -> u8 {
    let mut path = [0u8; 64];
    let pre = b"/proc/self/task/";
    path[..pre.len()].copy_from_slice(pre);
    let mut n = pre.len();
    let mut digits = [0u8; 12];
    let mut d = 0;
    let mut t = tid as u32;
    while t > 0 {
        digits[d] = b'0' + (t % 10) as u8;
        t /= 10;
        d += 1;
    }
    while d > 0 {
        d -= 1;
        path[n] = digits[d];
        n += 1;
    }
    path[n..n + 5].copy_from_slice(b"/stat");
    let mut buf = [0u8; 256];
    unsafe {
        let fd = libc::open(path.as_ptr() as *const libc::c_char, libc::O_RDONLY);
        if fd < 0 {
            return b'?';
        }
        let n = libc::read(fd, buf.as_mut_ptr() as *mut libc::c_void, 255);
        libc::close(fd);
        if n <= 0 {
            return b'?';
        }
        let s = &buf[..n as usize];
        match s.iter().rposition(|c| *c == b')') {
            Some(i) if i + 2 < s.len() => s[i + 2],
            _ => b'?',
        }
    }
}
fn nap(us: u32) {
    unsafe {
        libc::usleep(us);
    }
}
fn start_b() {
    unsafe {
        let mut th: libc::pthread_t = 0;
        if libc::pthread_create(&mut th, std::ptr::null(), b_main, std::ptr::null_mut()) != 0 {
            libc::_exit(9);
        }
    }
    let mut spins = 0u32;
    let mut sleepy = 0;
    loop {
        if B_DONE.load(SeqCst) || B_PAUSED.load(SeqCst) {
            return;
        }
        spins += 1;
        if spins < 50 {
            unsafe { libc::sched_yield() };
            continue;
        }
        nap(20);
        let t = B_TID.load(SeqCst);
        if t != 0 {
            if thread_state(t) == b'S' && !B_DONE.load(SeqCst) {
                sleepy += 1;
            } else {
                sleepy = 0;
            }
            if sleepy >= 3 {
                let sh = unsafe { &*SHARED.load(SeqCst) };
                sh.blocked.fetch_add(1, SeqCst);
                return;
            }
        }
    }
}
extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = unsafe { &mut *(ctx as *mut libc::ucontext_t) };
    let rip = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
    let plan = unsafe { &*PLAN.load(SeqCst) };
    if let Some((i, j)) = plan.pair {
        let inside = rip >= TEXT_LO.load(Relaxed) && rip < TEXT_HI.load(Relaxed);
        if tid() == A_TID.load(SeqCst) {
            if !inside {
                return;
            }
            if STEPS.fetch_add(1, Relaxed) == i {
                uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
                start_b();
            }
        } else {
            if !inside {
                return;
            }
            if B_STEPS.fetch_add(1, Relaxed) == j {
                uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
                B_PAUSED.store(true, SeqCst);
                while !B_GO.load(SeqCst) {
                    nap(20);
                }
            }
        }
        return;
    }
    STEPS.fetch_add(1, Relaxed);
    if FAILED.load(Relaxed) {
        uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        return;
    }
    if rip < TEXT_LO.load(Relaxed) || rip >= TEXT_HI.load(Relaxed) {
        return;
    }
    // occurrences of this instruction
    let mut h = (rip.wrapping_mul(0x9e3779b97f4a7c15) >> 40) as usize % TAB;
    let seen = unsafe {
        let t = std::ptr::addr_of_mut!(COUNTS) as *mut (u64, u32);
        loop {
            let e = &mut *t.add(h);
            if e.0 == rip || e.0 == 0 {
                if e.0 == 0 {
                    e.0 = rip;
                    RIPS.fetch_add(1, Relaxed);
                    crate::engine::state(rip);
                }
                e.1 += 1;
                break e.1;
            }
            h = (h + 1) % TAB;
        }
    };
    if seen > plan.per_rip {
        return;
    }
    let n = ELIGIBLE.fetch_add(1, Relaxed);
    if n % plan.nshards != plan.shard {
        return;
    }
    let before = unsafe { (*SHARED.load(SeqCst)).blocked.load(SeqCst) };
    if schedule(uc, -1) {
        return;
    }
    // another thread that blocks at once has not come to its other operations: each of them alone
    let blocks = unsafe { (*SHARED.load(SeqCst)).blocked.load(SeqCst) } != before;
    if blocks && seen <= 3 {
        for k in 0..plan.singles.len() {
            if !FAILED.load(Relaxed) && schedule(uc, k as i32) {
                return;
            }
        }
    }
}
/// Run the schedule that preempts here. True in the child, which goes on with A.
fn schedule(uc: &mut libc::ucontext_t, pick: i32) -> bool {
    POINTS.fetch_add(1, Relaxed);
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            libc::_exit(8);
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::prctl(libc::PR_SET_TIMERSLACK, 1);
            libc::alarm(25);
            IN_CHILD.store(true, SeqCst);
            uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
            B_PICK.store(pick, SeqCst);
            start_b();
            return true;
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
            FAIL_STEP.store(STEPS.load(Relaxed), SeqCst);
            FAIL_STATUS.store(st, SeqCst);
            FAILED.store(true, SeqCst);
        }
    }
    false
}
fn say(m: &str) -> ! {
    let sh = SHARED.load(SeqCst);
    unsafe {
        let n = m.len().min(8000);
        std::ptr::copy_nonoverlapping(m.as_ptr(), (*sh).msg.as_mut_ptr(), n);
        (*sh).len.store(n as u64, SeqCst);
        libc::_exit(1)
    }
}
/// The rest of a schedule: collect B, compare everything, exit.
fn conclude(plan: &Plan, ra: Result<u64, String>) -> ! {
    B_GO.store(true, SeqCst);
    let t0 = std::time::Instant::now();
    while !B_DONE.load(SeqCst) {
        nap(20);
        if t0.elapsed().as_secs() > 10 {
            say("the other thread never finishes (deadlock)");
        }
    }
    match ra {
        Err(e) => say(&format!("the preempted operation {}", e)),
        Ok(a) if a != plan.want_a => say(&format!("the preempted operation gives {} instead of {}", a, plan.want_a)),
        _ => {}
    }
    let e = B_ERR.load(SeqCst);
    if !e.is_null() {
        say(&format!("the other thread {}", unsafe { &*e }));
    }
    let b = B_OUT.load(SeqCst);
    let want_b = match B_PICK.load(SeqCst) {
        -1 => plan.want_b,
        k => plan.singles[k as usize].1,
    };
    if b != want_b {
        say(&format!("the other thread gives {} instead of {}", b, want_b));
    }
    match panics(|| (plan.after)()) {
        Err(e) => say(&format!("afterwards: {}", e)),
        Ok(c) if c != plan.want_after => say(&format!("afterwards: {} instead of {}", c, plan.want_after)),
        _ => {}
    }
    unsafe { libc::_exit(0) }
}
/// Map the message page (before forking pair runs, so that the parent can read it).
pub fn init_shared() {
    if SHARED.load(SeqCst).is_null() {
        unsafe {
            let sh = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(sh != libc::MAP_FAILED);
            SHARED.store(sh as *mut Shared, SeqCst);
        }
    }
    unsafe { (*SHARED.load(SeqCst)).len.store(0, SeqCst) }
}
fn prepare(plan: &Plan) {
    text_range();
    init_shared();
    unsafe {
        PLAN.store(plan as *const Plan as *mut Plan<'static>, SeqCst);
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        libc::sigemptyset(&mut sa.sa_mask);
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    A_TID.store(tid(), SeqCst);
}
fn message() -> String {
    let sh = unsafe { &*SHARED.load(SeqCst) };
    let n = sh.len.load(SeqCst) as usize;
    String::from_utf8_lossy(&sh.msg[..n]).to_string()
}
/// Explore every single preemption of `a`. Must be called in a process of its own.
pub fn explore(plan: &Plan) -> Report {
    prepare(plan);
    let a = plan.a;
    let ra = panics(|| {
        trap_on();
        let r = a();
        trap_off();
        r
    });
    trap_off();
    if IN_CHILD.load(SeqCst) {
        conclude(plan, ra)
    }
    let mut rep = Report {
        steps: STEPS.load(SeqCst),
        points: POINTS.load(SeqCst),
        rips: RIPS.load(SeqCst),
        blocked: unsafe { (*SHARED.load(SeqCst)).blocked.load(SeqCst) },
        fail: None,
    };
    if FAILED.load(SeqCst) {
        let st = FAIL_STATUS.load(SeqCst);
        let m = message();
        rep.fail = Some(format!(
            "preempted at step {}: {}",
            FAIL_STEP.load(SeqCst),
            if !m.is_empty() {
                m
            } else if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM {
                "deadlock or endless loop".into()
            } else {
                format!("the process died (status {:#x})", st)
            }
        ));
    } else {
        match ra {
            Ok(r) if r == plan.want_a => {}
            Ok(r) => rep.fail = Some(format!("stepped alone: {} instead of {}", r, plan.want_a)),
            Err(e) => rep.fail = Some(format!("stepped alone: {}", e)),
        }
    }
    rep
}
/// Run one two-preemption schedule. Must be called in a process of its own; exits.
/// Exit code 2: the schedule does not exist (an operation is shorter).
pub fn run_pair(plan: &Plan) -> ! {
    prepare(plan);
    unsafe { libc::alarm(25) };
    let a = plan.a;
    let ra = panics(|| {
        trap_on();
        let r = a();
        trap_off();
        r
    });
    trap_off();
    if B_TID.load(SeqCst) == 0 && !B_DONE.load(SeqCst) {
        unsafe { libc::_exit(2) }
    }
    if !B_PAUSED.load(SeqCst) && B_DONE.load(SeqCst) {
        unsafe { libc::_exit(3) }
    }
    conclude(plan, ra)
}
pub fn pair_message() -> String {
    message()
}
pub fn encode(r: &Report) -> Vec<u8> {
    format!("{}\n{}\n{}\n{}\n{}", r.steps, r.points, r.rips, r.blocked, r.fail.clone().unwrap_or_default()).into_bytes()
}
pub fn decode(v: &[u8]) -> Report {
    let s = String::from_utf8_lossy(v).to_string();
    let mut it = s.splitn(5, '\n');
    let mut n = || it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    let (steps, points, rips, blocked) = (n(), n(), n(), n());
    let fail = it.next().unwrap_or("").to_string();
    Report { steps, points, rips, blocked, fail: if fail.is_empty() { None } else { Some(fail) } }
}
