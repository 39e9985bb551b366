//! Tracked elements: every value has an identity whose construction, use and
//! drop are recorded, and every clone / arithmetic step is a point where a
//! fault can be injected or a schedule can switch.

use std::cell::Cell;
use std::fmt;
use std::ops;
use std::sync::atomic::{AtomicI64, AtomicU8, AtomicUsize, Ordering::*};
use std::sync::Mutex;

use essay_tensor::tensor::Type;

use crate::elem::Elem;
use crate::sched;

const MAX: usize = 1 << 22;
static STATE: [AtomicU8; MAX] = [const { AtomicU8::new(0) }; MAX];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static ZLIVE: AtomicI64 = AtomicI64::new(0);
static ERRS: Mutex<Vec<String>> = Mutex::new(Vec::new());

thread_local! {
    /// Countdown to the injected panic (negative: off).
    static FAULT: Cell<i64> = const { Cell::new(-1) };
    static POINTS: Cell<u64> = const { Cell::new(0) };
}

const MAGIC: u64 = 0x7AC_ED_E1E_0E27;

pub struct Tr {
    magic: u64,
    id: usize,
    pub val: i64,
    own: Box<i64>,
}

fn report(e: String) {
    let _g = sched::no_step();
    let mut v = ERRS.lock().unwrap_or_else(|e| e.into_inner());
    if v.len() < 20 {
        v.push(e);
    }
}

/// A callback / clone / arithmetic point.
pub fn point() {
    POINTS.with(|p| p.set(p.get() + 1));
    FAULT.with(|f| {
        let n = f.get();
        if n >= 0 {
            f.set(n - 1);
            if n == 0 {
                panic!("injected fault");
            }
        }
    });
    sched::yield_point();
}

pub fn arm(n: i64) {
    FAULT.with(|f| f.set(n));
}

pub fn armed() -> bool {
    FAULT.with(|f| f.get() >= 0)
}

pub fn points() -> u64 {
    POINTS.with(|p| p.get())
}

pub fn reset_points() {
    POINTS.with(|p| p.set(0));
}

impl Tr {
    pub fn new(val: i64) -> Tr {
        let _g = sched::no_step();
        let id = NEXT.fetch_add(1, SeqCst);
        assert!(id < MAX, "harness: too many tracked values");
        STATE[id].store(1, SeqCst);
        LIVE.fetch_add(1, SeqCst);
        Tr { magic: MAGIC, id, val, own: Box::new(val) }
    }

    /// Reads the value, verifying that it is alive and intact.
    pub fn get(&self) -> i64 {
        self.verify("read");
        self.val
    }

    fn verify(&self, what: &str) {
        let _g = sched::no_step();
        if self.magic != MAGIC {
            report(format!("{what} of memory that holds no live value (tag {:#x})", self.magic));
        } else if self.id >= MAX || STATE[self.id].load(SeqCst) != 1 {
            report(format!("{what} of value {} after it was dropped", self.val));
        } else if *self.own != self.val {
            report(format!("{what} of a corrupted value {} / {}", self.val, self.own));
        }
    }
}

impl Clone for Tr {
    fn clone(&self) -> Tr {
        self.verify("clone");
        point();
        Tr::new(self.val)
    }
}

impl Drop for Tr {
    fn drop(&mut self) {
        let _g = sched::no_step();
        if self.magic != MAGIC {
            report(format!("drop of memory that holds no live value (tag {:#x})", self.magic));
            std::mem::forget(std::mem::replace(&mut self.own, Box::new(0)));
            return;
        }
        if self.id >= MAX || STATE[self.id].swap(2, SeqCst) != 1 {
            report(format!("value {} dropped twice", self.val));
            std::mem::forget(std::mem::replace(&mut self.own, Box::new(0)));
            return;
        }
        LIVE.fetch_sub(1, SeqCst);
    }
}

impl PartialEq for Tr {
    fn eq(&self, o: &Tr) -> bool {
        point();
        self.get() == o.get()
    }
}

impl PartialOrd for Tr {
    fn partial_cmp(&self, o: &Tr) -> Option<std::cmp::Ordering> {
        point();
        self.get().partial_cmp(&o.get())
    }
}

impl fmt::Debug for Tr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        point();
        write!(f, "Tr({})", self.val)
    }
}

impl Default for Tr {
    fn default() -> Tr {
        point();
        Tr::new(-7)
    }
}

macro_rules! tr_op {
    ($tr:ident, $f:ident, $e:expr) => {
        impl ops::$tr for Tr {
            type Output = Tr;
            fn $f(self, o: Tr) -> Tr {
                point();
                let f: fn(i64, i64) -> i64 = $e;
                Tr::new(f(self.get(), o.get()))
            }
        }
    };
}

tr_op!(Add, add, |a, b| a.wrapping_mul(31).wrapping_add(b));
tr_op!(Sub, sub, |a, b| a.wrapping_sub(b));
tr_op!(Mul, mul, |a, b| a.wrapping_mul(7).wrapping_sub(b));

impl ops::Neg for Tr {
    type Output = Tr;
    fn neg(self) -> Tr {
        point();
        Tr::new(-self.get())
    }
}

impl num_traits::Zero for Tr {
    fn zero() -> Tr {
        point();
        Tr::new(0)
    }
    fn is_zero(&self) -> bool {
        self.get() == 0
    }
}

impl num_traits::One for Tr {
    fn one() -> Tr {
        point();
        Tr::new(1)
    }
}

impl Type for Tr {}

impl Elem for Tr {
    fn nth(i: usize) -> Tr {
        Tr::new(i as i64)
    }
    fn poison(i: usize) -> Tr {
        Tr::new(-1_000_000 - i as i64)
    }
}

/// Zero-sized tracked value: only the count can be observed.
pub struct Zs;

impl Zs {
    pub fn new() -> Zs {
        ZLIVE.fetch_add(1, SeqCst);
        Zs
    }
}

impl Clone for Zs {
    fn clone(&self) -> Zs {
        point();
        Zs::new()
    }
}

impl Drop for Zs {
    fn drop(&mut self) {
        ZLIVE.fetch_sub(1, SeqCst);
    }
}

impl PartialEq for Zs {
    fn eq(&self, _: &Zs) -> bool {
        true
    }
}

impl fmt::Debug for Zs {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Zs")
    }
}

impl ops::Add for Zs {
    type Output = Zs;
    fn add(self, _: Zs) -> Zs {
        point();
        Zs::new()
    }
}

impl Type for Zs {}

impl Elem for Zs {
    fn nth(_: usize) -> Zs {
        Zs::new()
    }
    fn poison(_: usize) -> Zs {
        Zs::new()
    }
}

static VALS: [AtomicI64; 1 << 16] = [const { AtomicI64::new(0) }; 1 << 16];

/// Tracked value that consists of its identity only, so that it has the size
/// of the integer; the value is kept aside.
pub struct Tk<I: TkId>(I);

pub trait TkId: Copy + 'static {
    fn of(n: usize) -> Self;
    fn n(self) -> usize;
}

macro_rules! tk_id {
    ($($t:ty)*) => { $(
        impl TkId for $t {
            fn of(n: usize) -> Self { <$t>::try_from(n).expect("harness: identity") }
            fn n(self) -> usize { self as usize }
        }
        impl Type for Tk<$t> {}
        impl Elem for Tk<$t> {
            fn nth(i: usize) -> Self { Tk::new(i as i64) }
            fn poison(i: usize) -> Self { Tk::new(-1_000_000 - i as i64) }
        }
    )* }
}

tk_id!(u16 u32 u64 u128);

/// Identities are stored with an offset, so that zeroed memory is none.
const TK: usize = 0x1000;

impl<I: TkId> Tk<I> {
    pub fn new(val: i64) -> Tk<I> {
        let id = NEXT.fetch_add(1, SeqCst);
        assert!(id < (1 << 16) - TK, "harness: too many tracked values");
        STATE[id].store(1, SeqCst);
        VALS[id].store(val, SeqCst);
        LIVE.fetch_add(1, SeqCst);
        Tk(I::of(id + TK))
    }

    pub fn get(&self, what: &str) -> i64 {
        let id = self.0.n().wrapping_sub(TK);
        if id >= NEXT.load(SeqCst) || id >= 1 << 16 {
            report(format!("{what} of memory that holds no live value (identity {})", self.0.n()));
            return i64::MIN;
        }
        if STATE[id].load(SeqCst) != 1 {
            report(format!("{what} of value {} after it was dropped", VALS[id].load(SeqCst)));
        }
        VALS[id].load(SeqCst)
    }
}

impl<I: TkId> Clone for Tk<I> {
    fn clone(&self) -> Self {
        let v = self.get("clone");
        point();
        Tk::new(v)
    }
}

impl<I: TkId> Drop for Tk<I> {
    fn drop(&mut self) {
        let id = self.0.n().wrapping_sub(TK);
        if id >= NEXT.load(SeqCst) || id >= 1 << 16 {
            report(format!("drop of memory that holds no live value (identity {})", self.0.n()));
        } else if STATE[id].swap(2, SeqCst) != 1 {
            report(format!("value {} dropped twice", VALS[id].load(SeqCst)));
        } else {
            LIVE.fetch_sub(1, SeqCst);
        }
    }
}

impl<I: TkId> PartialEq for Tk<I> {
    fn eq(&self, o: &Self) -> bool {
        point();
        self.get("comparison") == o.get("comparison")
    }
}

impl<I: TkId> fmt::Debug for Tk<I> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        point();
        write!(f, "Tk({})", self.get("formatting"))
    }
}

/// Starts a fresh accounting period (no tracked value may be alive).
pub fn reset() {
    let n = NEXT.swap(0, SeqCst).min(MAX);
    for s in &STATE[..n] {
        s.store(0, SeqCst);
    }
    LIVE.store(0, SeqCst);
    ZLIVE.store(0, SeqCst);
    ERRS.lock().unwrap_or_else(|e| e.into_inner()).clear();
    arm(-1);
    reset_points();
}

pub fn live() -> i64 {
    LIVE.load(SeqCst)
}

pub fn zlive() -> i64 {
    ZLIVE.load(SeqCst)
}

pub fn check() -> Result<(), String> {
    let v = ERRS.lock().unwrap_or_else(|e| e.into_inner());
    if v.is_empty() { Ok(()) } else { Err(v.join("; ")) }
}
