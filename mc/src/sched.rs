//! Stateless exploration of thread schedules with a preemption bound. The
//! threads are real OS threads of which only the one holding the token runs;
//! at every scheduling point the explorer decides who runs next. Every
//! schedule with at most `bound` preemptions is executed exactly once.
//!
//! Scheduling points are either explicit (`yield_point`) or, with stepping on,
//! every machine instruction of this executable: the processor's trap flag
//! stops the thread after each instruction and the trap handler takes the
//! decision. Stepping needs no change to the code under test, so it does not
//! depend on which synchronisation the code uses. Instructions inside the C
//! library and inside the harness' own bookkeeping are not points.

use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex, Once};
use std::time::{Duration, Instant};

const MAX_THREADS: usize = 4;
const MAX_POINTS: usize = 1 << 15;

struct St {
    prefix: Vec<usize>,
    points: Vec<Point>,
    current: usize,
    /// 0 ready, 1 done, 2 blocked outside the explorer's control
    status: [u8; MAX_THREADS],
    n: usize,
    progress: u64,
    preempted: usize,
    error: Option<&'static str>,
}

#[derive(Clone, Copy, Debug)]
pub struct Point {
    pub enabled: [u8; MAX_THREADS],
    pub n: u8,
    pub chosen: u8,
    /// the running thread could have continued
    pub running_enabled: bool,
}

struct Shared {
    m: Mutex<St>,
    cv: Condvar,
    /// instruction stepping: how often each instruction counts per thread
    step: Option<u8>,
    bound: usize,
    /// no decision is left: run at full speed
    free: AtomicBool,
}

struct Seen {
    table: Vec<(usize, u8)>,
    stack: (usize, usize),
}

thread_local! {
    static ME: RefCell<Option<(Arc<Shared>, usize)>> = const { RefCell::new(None) };
    static NOSTEP: Cell<u32> = const { Cell::new(0) };
    static SEEN: Cell<*mut Seen> = const { Cell::new(std::ptr::null_mut()) };
}

/// While alive, instructions of this thread are not scheduling points.
pub struct NoStep;

pub fn no_step() -> NoStep {
    NOSTEP.with(|n| n.set(n.get() + 1));
    NoStep
}

impl Drop for NoStep {
    fn drop(&mut self) {
        let _ = NOSTEP.try_with(|n| n.set(n.get() - 1));
    }
}

// Called from the trap handler: must not allocate.
fn decide(st: &mut St, me: Option<usize>) {
    let mut enabled = [0u8; MAX_THREADS];
    let mut n = 0;
    if let Some(me) = me {
        if st.status[me] == 0 {
            enabled[n] = me as u8;
            n += 1;
        }
    }
    let running_enabled = n > 0;
    for i in 0..st.n {
        if st.status[i] == 0 && Some(i) != me {
            enabled[n] = i as u8;
            n += 1;
        }
    }
    if n == 0 {
        st.current = usize::MAX;
        return;
    }
    let k = st.points.len();
    let mut chosen = if k < st.prefix.len() { st.prefix[k] } else { 0 };
    if chosen >= n {
        st.error = Some("harness: schedule prefix diverged");
        chosen = 0;
    }
    st.current = enabled[chosen] as usize;
    if running_enabled && chosen != 0 {
        st.preempted += 1;
    }
    if k < MAX_POINTS {
        st.points.push(Point { enabled, n: n as u8, chosen: chosen as u8, running_enabled });
    } else {
        st.error = Some("harness: too many scheduling points");
    }
}

fn wait_turn<'a>(sh: &'a Shared, mut st: std::sync::MutexGuard<'a, St>, me: usize) {
    while st.current != me {
        st = sh.cv.wait(st).unwrap();
    }
}

/// A scheduling point. Does nothing on threads the explorer does not control.
pub fn yield_point() {
    let _g = no_step();
    point_of(None);
}

fn point_of(_rip: Option<usize>) {
    let me = ME.with(|m| m.try_borrow().ok().and_then(|m| m.as_ref().map(|m| (Arc::as_ptr(&m.0), m.1))));
    let Some((sh, me)) = me else { return };
    // the Arc in ME outlives this call
    let sh = unsafe { &*sh };
    let mut st = sh.m.lock().unwrap();
    st.progress += 1;
    if st.status[me] == 2 {
        // was taken for blocked; rejoin
        st.status[me] = 0;
        if st.current == usize::MAX {
            decide(&mut st, Some(me));
            sh.cv.notify_all();
        }
        wait_turn(sh, st, me);
        return;
    }
    decide(&mut st, Some(me));
    if sh.step.is_some() && st.points.len() >= st.prefix.len() && st.preempted >= sh.bound {
        sh.free.store(true, Ordering::SeqCst);
    }
    if st.current != me {
        sh.cv.notify_all();
        wait_turn(sh, st, me);
    }
}

#[cfg(target_arch = "x86_64")]
mod step {
    use super::*;

    extern "C" {
        static __executable_start: u8;
        static etext: u8;
    }

    pub fn text() -> (usize, usize) {
        unsafe { (&__executable_start as *const u8 as usize, &etext as *const u8 as usize) }
    }

    pub fn set(on: bool) {
        unsafe {
            if on {
                std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            } else {
                std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
            }
        }
    }

    /// Bounds of the calling thread's stack.
    pub fn stack() -> (usize, usize) {
        unsafe {
            let mut a: libc::pthread_attr_t = std::mem::zeroed();
            let (mut p, mut n) = (std::ptr::null_mut(), 0);
            if libc::pthread_getattr_np(libc::pthread_self(), &mut a) != 0 {
                return (0, 0);
            }
            libc::pthread_attr_getstack(&a, &mut p, &mut n);
            libc::pthread_attr_destroy(&mut a);
            (p as usize, p as usize + n)
        }
    }

    /// May the instruction at `rip` access memory other threads can see? A
    /// switch before an instruction that only touches registers, this
    /// thread's stack or its thread-locals commutes with it, so only the
    /// others are scheduling points. Everything not understood counts.
    unsafe fn shared_access(rip: usize, regs: &[i64; 23], stack: (usize, usize)) -> bool {
        let b = |i: usize| *((rip + i) as *const u8);
        let mut i = 0;
        let mut fs = false;
        loop {
            match b(i) {
                0x64 => fs = true,
                0x66 | 0x67 | 0xF0 | 0xF2 | 0xF3 | 0x2E | 0x36 | 0x3E | 0x26 => {}
                0x65 => return true,
                _ => break,
            }
            i += 1;
        }
        if b(i) == 0xC4 || b(i) == 0xC5 || b(i) == 0x62 {
            return true; // vector encodings
        }
        let mut rex = 0;
        if b(i) & 0xF0 == 0x40 {
            rex = b(i);
            i += 1;
        }
        let op = b(i);
        i += 1;
        if op == 0x0F {
            let op2 = b(i);
            i += 1;
            match op2 {
                0x0B | 0x31 | 0x77 | 0xA2 | 0x80..=0x8F | 0xC8..=0xCF | 0xA0 | 0xA1 | 0xA8 | 0xA9 => return false,
                0x05 => return true,
                0x1E | 0x1F | 0x18 | 0x0D => return false, // hints
                0x38 | 0x3A => i += 1,
                _ => {}
            }
        } else {
            match op {
                // push, pop, jumps, calls, returns, immediates to registers
                0x50..=0x5F | 0x68 | 0x6A | 0x70..=0x7F | 0xE8 | 0xE9 | 0xEB | 0xC2 | 0xC3 | 0xC9 | 0x90..=0x9F | 0xB0..=0xBF | 0xA8 | 0xA9 | 0xCC | 0xE0..=0xE3 => return false,
                0x04 | 0x05 | 0x0C | 0x0D | 0x14 | 0x15 | 0x1C | 0x1D | 0x24 | 0x25 | 0x2C | 0x2D | 0x34 | 0x35 | 0x3C | 0x3D => return false,
                0xF4..=0xF5 | 0xF8..=0xFD => return false,
                0x8D => return false, // address computation
                0xA0..=0xA7 | 0xAA..=0xAF | 0xD7 | 0x6C..=0x6F | 0xC8 => return true, // string instructions
                _ => {}
            }
        }
        let modrm = b(i);
        i += 1;
        let (md, rm) = (modrm >> 6, modrm & 7);
        if md == 3 {
            return false;
        }
        if fs {
            return false;
        }
        const GP: [i32; 16] = [
            libc::REG_RAX, libc::REG_RCX, libc::REG_RDX, libc::REG_RBX, libc::REG_RSP, libc::REG_RBP, libc::REG_RSI, libc::REG_RDI,
            libc::REG_R8, libc::REG_R9, libc::REG_R10, libc::REG_R11, libc::REG_R12, libc::REG_R13, libc::REG_R14, libc::REG_R15,
        ];
        let reg = |n: u8| regs[GP[n as usize] as usize] as usize;
        let addr;
        if rm == 5 && md == 0 {
            return true; // relative to the instruction pointer: a static
        }
        let mut base_none = false;
        let mut a = 0usize;
        if rm == 4 {
            let sib = b(i);
            i += 1;
            let (sc, ix, bs) = (sib >> 6, (sib >> 3 & 7) | (rex << 2 & 8), (sib & 7) | (rex << 3 & 8));
            if ix != 4 {
                a = a.wrapping_add(reg(ix) << sc);
            }
            if sib & 7 == 5 && md == 0 {
                base_none = true;
            } else {
                a = a.wrapping_add(reg(bs));
            }
        } else {
            a = reg(rm | (rex << 3 & 8));
        }
        if md == 1 {
            a = a.wrapping_add(b(i) as i8 as isize as usize);
        } else if md == 2 || base_none {
            a = a.wrapping_add(((rip + i) as *const i32).read_unaligned() as isize as usize);
        }
        addr = a;
        !(addr >= stack.0 && addr < stack.1)
    }

    extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
        unsafe {
            let uc = &mut *(ctx as *mut libc::ucontext_t);
            let regs = &mut uc.uc_mcontext.gregs;
            let rip = regs[libc::REG_RIP as usize] as usize;
            let (lo, hi) = text();
            if rip < lo || rip >= hi || NOSTEP.with(|n| n.get()) != 0 {
                return;
            }
            let seen = SEEN.with(|s| s.get());
            if seen.is_null() {
                regs[libc::REG_EFL as usize] &= !0x100;
                return;
            }
            let me = ME.with(|m| m.try_borrow().ok().and_then(|m| m.as_ref().map(|m| Arc::as_ptr(&m.0))));
            let Some(sh) = me else { return };
            let sh = &*sh;
            if sh.free.load(Ordering::SeqCst) {
                regs[libc::REG_EFL as usize] &= !0x100;
                return;
            }
            if !shared_access(rip, regs, (*seen).stack) {
                return;
            }
            // count the occurrence of this instruction
            let t = &mut (*seen).table;
            let mask = t.len() - 1;
            let mut h = (rip.wrapping_mul(0x9E3779B97F4A7C15) >> 20) & mask;
            let mut tries = 0;
            while t[h].0 != 0 && t[h].0 != rip {
                h = (h + 1) & mask;
                tries += 1;
                if tries > mask {
                    return;
                }
            }
            t[h].0 = rip;
            if t[h].1 >= sh.step.unwrap_or(0) {
                return;
            }
            t[h].1 += 1;
            let errno = *libc::__errno_location();
            NOSTEP.with(|n| n.set(n.get() + 1));
            point_of(Some(rip));
            NOSTEP.with(|n| n.set(n.get() - 1));
            *libc::__errno_location() = errno;
            if sh.free.load(Ordering::SeqCst) {
                regs[libc::REG_EFL as usize] &= !0x100;
            }
        }
    }

    pub fn install() {
        static ONCE: Once = Once::new();
        ONCE.call_once(|| unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_trap as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO;
            assert_eq!(libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()), 0);
        });
    }
}

pub type Body = Box<dyn FnOnce() + Send>;

pub struct Execution {
    pub points: Vec<Point>,
    pub error: Option<String>,
}

impl Execution {
    /// The threads in the order they ran (consecutive repetitions once).
    pub fn schedule(&self) -> Vec<String> {
        let mut out: Vec<(usize, usize)> = Vec::new();
        for p in &self.points {
            let t = p.enabled[p.chosen as usize] as usize;
            match out.last_mut() {
                Some(l) if l.0 == t => l.1 += 1,
                _ => out.push((t, 1)),
            }
        }
        out.iter().map(|(t, n)| format!("T{t}x{n}")).collect()
    }
    fn choices(&self) -> Vec<usize> {
        self.points.iter().map(|p| p.chosen as usize).collect()
    }
    pub fn preemptions(&self, upto: usize) -> usize {
        self.points[..upto].iter().filter(|p| p.running_enabled && p.chosen != 0).count()
    }
}

/// Runs the bodies once under the given schedule prefix (afterwards the
/// running thread continues while it can).
pub fn run_once(bodies: Vec<Body>, prefix: Vec<usize>, step: Option<u8>, bound: usize) -> Execution {
    let n = bodies.len();
    assert!(n <= MAX_THREADS);
    if step.is_some() {
        step::install();
    }
    let free = step.is_some() && bound == 0;
    let sh = Arc::new(Shared {
        m: Mutex::new(St {
            prefix, points: Vec::with_capacity(if step.is_some() { MAX_POINTS } else { MAX_POINTS }), current: usize::MAX,
            status: [0; MAX_THREADS], n, progress: 0, preempted: 0, error: None,
        }),
        cv: Condvar::new(),
        step, bound,
        free: AtomicBool::new(free),
    });
    let mut handles = Vec::new();
    for (i, body) in bodies.into_iter().enumerate() {
        let sh = sh.clone();
        handles.push(std::thread::spawn(move || {
            ME.with(|m| *m.borrow_mut() = Some((sh.clone(), i)));
            wait_turn(&sh, sh.m.lock().unwrap(), i);
            let mut seen = Seen { table: if sh.step.is_some() { vec![(0, 0); 1 << 13] } else { Vec::new() }, stack: step::stack() };
            let stepping = sh.step.is_some() && !sh.free.load(Ordering::SeqCst);
            if stepping {
                SEEN.with(|s| s.set(&mut seen));
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                if stepping {
                    step::set(true);
                }
                body();
                if stepping {
                    step::set(false);
                }
            }));
            step::set(false);
            SEEN.with(|s| s.set(std::ptr::null_mut()));
            let mut st = sh.m.lock().unwrap();
            if r.is_err() && st.error.is_none() {
                st.error = Some("panic in a thread body");
            }
            st.status[i] = 1;
            st.progress += 1;
            // thread-local destructors run uncontrolled after this point
            ME.with(|m| *m.borrow_mut() = None);
            if st.current == i || st.current == usize::MAX {
                decide(&mut st, None);
            }
            sh.cv.notify_all();
        }));
    }
    {
        let mut st = sh.m.lock().unwrap();
        decide(&mut st, None);
        sh.cv.notify_all();
        let mut last = (st.progress, Instant::now());
        loop {
            if st.status[..n].iter().all(|s| *s == 1) {
                break;
            }
            let (g, t) = sh.cv.wait_timeout(st, Duration::from_millis(100)).unwrap();
            st = g;
            if st.progress != last.0 {
                last = (st.progress, Instant::now());
            } else if t.timed_out() && last.1.elapsed() > Duration::from_millis(400) {
                // the running thread waits for something a paused thread holds
                let cur = st.current;
                if cur < n && st.status[cur] == 0 {
                    st.status[cur] = 2;
                    decide(&mut st, None);
                    sh.cv.notify_all();
                    last.1 = Instant::now();
                } else if last.1.elapsed() > Duration::from_secs(10) {
                    let points = st.points.clone();
                    return Execution { points, error: Some("deadlock: no thread can continue".into()) };
                }
            }
        }
    }
    for h in handles {
        let _ = h.join();
    }
    let st = sh.m.lock().unwrap();
    Execution { points: st.points.clone(), error: st.error.map(|s| s.to_string()) }
}

#[derive(Default, Debug)]
pub struct Explored {
    pub executions: u64,
    pub points: u64,
    pub max_points: usize,
    pub capped: bool,
}

/// Executes every schedule with at most `bound` preemptions.
pub fn explore(
    bound: usize,
    cap: u64,
    make: impl FnMut() -> Vec<Body>,
    check: impl FnMut(&Execution) -> Result<(), String>,
) -> Result<Explored, String> {
    explore_step(bound, cap, None, make, check)
}

/// As `explore`; with `step`, every instruction is a scheduling point (the
/// first `step` times a thread executes it).
pub fn explore_step(
    bound: usize,
    cap: u64,
    step: Option<u8>,
    mut make: impl FnMut() -> Vec<Body>,
    mut check: impl FnMut(&Execution) -> Result<(), String>,
) -> Result<Explored, String> {
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    let mut out = Explored::default();
    while let Some(prefix) = stack.pop() {
        if out.executions >= cap {
            out.capped = true;
            break;
        }
        let len = prefix.len();
        let x = run_once(make(), prefix, step, bound);
        out.executions += 1;
        out.points += x.points.len() as u64;
        out.max_points = out.max_points.max(x.points.len());
        if let Some(e) = &x.error {
            return Err(format!("{e}; schedule {:?}", x.schedule()));
        }
        check(&x).map_err(|e| format!("{e}; schedule {:?}", x.schedule()))?;
        let choices = x.choices();
        let mut cost = x.preemptions(len.min(x.points.len()));
        let mut next = Vec::new();
        for i in len..x.points.len() {
            let p = &x.points[i];
            let c = cost + if p.running_enabled { 1 } else { 0 };
            if c <= bound {
                for alt in 1..p.n as usize {
                    let mut q = choices[..i].to_vec();
                    q.push(alt);
                    next.push(q);
                }
            }
            if p.running_enabled && p.chosen != 0 {
                cost += 1;
            }
        }
        next.reverse();
        stack.extend(next);
    }
    Ok(out)
}
