//! The case runner. A check is one deterministic enumeration of cases; shards
//! take every n-th case. The current case number is kept in a shared memory
//! word so that the driver can name the case that crashed or hung.

use std::{
    cell::RefCell,
    collections::{HashMap, HashSet},
    hash::{Hash, Hasher},
    io::Write,
    panic::{self, AssertUnwindSafe},
    sync::atomic::{AtomicU64, Ordering},
};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs `f`; a panic becomes `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let (mut f, mut v) = (Some(f), None);
    catch_dyn(&mut || v = Some((f.take().unwrap())()))?;
    Ok(v.unwrap())
}

/// One copy only: keeps the explorers quick to compile.
#[inline(never)]
fn catch_dyn(f: &mut dyn FnMut()) -> R {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Ok(()),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// The call must not panic.
pub fn ok<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch(f).map_err(|e| format!("{what}: unexpected panic: {e}"))
}

/// The call must be refused by panicking.
pub fn refused<T>(what: &str, f: impl FnOnce() -> T) -> R {
    match catch(f) {
        Ok(_) => Err(format!("{what}: expected the call to be refused, but it returned")),
        Err(_) => Ok(()),
    }
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = msg + &loc);
    }));
}

pub struct Ctx {
    pub tier: Tier,
    shard: u64,
    nshards: u64,
    only: Option<u64>,
    n: u64,
    evals: u64,
    transitions: u64,
    outcomes: HashSet<u64>,
    states: HashSet<u64>,
    samples: Vec<String>,
    groups: HashMap<String, u64>,
    violations: Vec<(u64, String, String)>,
    known: HashSet<String>,
    known_hit: Vec<(String, String)>,
    progress: *mut u64,
    max_violations: usize,
    next_sample: u64,
    trace: bool,
}

static DUMMY: AtomicU64 = AtomicU64::new(0);

pub fn hash_of(v: &impl Hash) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    v.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// `q` in the quick tier, `t` in the thorough one.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() { q } else { t }
    }

    /// Runs one case. The label identifies it (and is the known-finding key).
    pub fn case(&mut self, group: &str, label: impl Fn() -> String, f: impl FnOnce(&mut Ctx) -> R) {
        let mut f = Some(f);
        self.case_dyn(group, &label, &mut |c| (f.take().unwrap())(c))
    }

    #[inline(never)]
    fn case_dyn(&mut self, group: &str, label: &dyn Fn() -> String, f: &mut dyn FnMut(&mut Ctx) -> R) {
        let n = self.n;
        self.n += 1;

        match self.only {
            Some(only) if only != n => return,
            None if n % self.nshards != self.shard => return,
            _ => {}
        }
        if self.violations.len() >= self.max_violations {
            return;
        }

        unsafe { self.progress.write_volatile(n + 1) };
        self.evals += 1;
        *self.groups.entry(group.to_string()).or_insert(0) += 1;

        if self.evals >= self.next_sample && self.samples.len() < 12 {
            self.next_sample = self.next_sample * 4 + 1;
            self.samples.push(format!("{group}: {}", label()));
        }

        let t0 = std::time::Instant::now();
        let r = match catch(|| f(self)) {
            Ok(r) => r,
            Err(e) => Err(format!("unexpected panic: {e}")),
        };

        if self.trace && t0.elapsed().as_millis() > 200 {
            eprintln!("{:>7} ms  {group}: {}", t0.elapsed().as_millis(), label());
        }
        if let Err(detail) = r {
            let key = format!("{group}: {}", label());
            if self.known.contains(&key) {
                self.known_hit.push((key, detail));
            } else {
                self.violations.push((n, key, detail));
            }
        }
    }

    /// Counts one call of an operation of the library (a transition).
    #[inline]
    pub fn tick(&mut self) {
        self.transitions += 1;
    }

    #[inline]
    pub fn ticks(&mut self, n: u64) {
        self.transitions += n;
    }

    /// Records a visited model state / input configuration (deduplicated).
    pub fn state(&mut self, v: &impl Hash) {
        if self.states.len() < 400_000 {
            self.states.insert(hash_of(v));
        }
    }

    /// Records an observed outcome (to see that the space is not vacuous).
    pub fn outcome(&mut self, v: &impl Hash) {
        if self.outcomes.len() < 400_000 {
            self.outcomes.insert(hash_of(v));
        }
    }

    fn finish(self, id: &str, out: &str) {
        let esc = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        };
        let clip = |s: &str| -> String { s.chars().take(1500).collect() };
        let mut s = String::new();
        s += &format!("{{\"id\":{},\"complete\":true,\"total_cases\":{},\"evals\":{},\"transitions\":{},", esc(id), self.n, self.evals, self.transitions);
        s += &format!("\"states\":{},\"outcomes\":{},", self.states.len(), self.outcomes.len());
        s += "\"samples\":[";
        s += &self.samples.iter().map(|x| esc(&clip(x))).collect::<Vec<_>>().join(",");
        s += "],\"groups\":{";
        let mut g: Vec<_> = self.groups.iter().collect();
        g.sort();
        s += &g.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
        s += "},\"violations\":[";
        s += &self.violations.iter().map(|(n, k, d)| format!("{{\"case\":{n},\"key\":{},\"detail\":{}}}", esc(&clip(k)), esc(&clip(d)))).collect::<Vec<_>>().join(",");
        s += "],\"known_hit\":[";
        s += &self.known_hit.iter().map(|(k, d)| format!("{{\"key\":{},\"detail\":{}}}", esc(&clip(k)), esc(&clip(d)))).collect::<Vec<_>>().join(",");
        s += "]}\n";
        if out.is_empty() {
            print!("{s}");
        } else {
            let mut f = std::fs::File::create(out).expect("out file");
            f.write_all(s.as_bytes()).expect("write");
            for (ext, set) in [("states", &self.states), ("outcomes", &self.outcomes)] {
                let bytes: Vec<u8> = set.iter().flat_map(|h| h.to_le_bytes()).collect();
                std::fs::write(format!("{out}.{ext}"), bytes).expect("write");
            }
        }
    }
}

fn map_progress(path: &str) -> *mut u64 {
    if path.is_empty() {
        return DUMMY.as_ptr();
    }
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("progress file");
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u64
    }
}

/// Entry point of every explorer binary.
pub fn run(id: &str, f: impl FnOnce(&mut Ctx)) {
    install_hook();
    let mut tier = Tier::Quick;
    let (mut shard, mut nshards) = (0u64, 1u64);
    let mut only = None;
    let mut out = String::new();
    let mut progress = String::new();
    let mut known = HashSet::new();
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("argument value");
        match a.as_str() {
            "--tier" => tier = if v() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--shard" => shard = v().parse().unwrap(),
            "--nshards" => nshards = v().parse().unwrap(),
            "--only" => only = Some(v().parse().unwrap()),
            "--out" => out = v(),
            "--progress" => progress = v(),
            "--known" => {
                let text = std::fs::read_to_string(v()).unwrap_or_default();
                known.extend(text.lines().filter(|l| !l.is_empty()).map(|l| l.to_string()));
            }
            other => {
                eprintln!("unknown argument {other}");
                std::process::exit(2);
            }
        }
    }
    let _ = DUMMY.load(Ordering::Relaxed);
    let mut ctx = Ctx {
        tier,
        shard,
        nshards,
        only,
        n: 0,
        evals: 0,
        transitions: 0,
        outcomes: HashSet::new(),
        states: HashSet::new(),
        samples: Vec::new(),
        groups: HashMap::new(),
        violations: Vec::new(),
        known,
        known_hit: Vec::new(),
        progress: map_progress(&progress),
        max_violations: 10,
        next_sample: 1,
        trace: std::env::var("MC_TRACE").is_ok(),
    };
    if catch(|| f(&mut ctx)).is_err() {
        eprintln!("harness: {}", LAST_PANIC.with(|p| p.borrow().clone()));
        std::process::exit(2);
    }
    ctx.finish(id, &out);
}
