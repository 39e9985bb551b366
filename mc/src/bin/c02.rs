//! C02: tensors never change, results depend only on the argument values.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

use essay_tensor::array;
use essay_tensor::signal;
use essay_tensor::stats;
use essay_tensor::tensor::Tensor;
use mc::fops::{fshot, Args, F, FOPS};
use mc::ops::{shot, HOSTS, OPS, T};
use mc::track::Tr;
use mc::*;
use num_traits::MulAdd;

/// Result of an operation: per tensor the dimensions and the bits; None: refused.
type Res = Option<Vec<(Vec<usize>, Vec<i64>)>>;

const OCFG: &[(&[usize], usize, &[usize], usize)] = &[
    (&[2, 2], 1, &[2, 2], 100),
    (&[2, 2], 31, &[2, 2], 7),
    (&[4], 1, &[4], 100),
    (&[3, 2], 1, &[2], 9),
    (&[2, 1, 2], 5, &[1, 2], 60),
];

struct FCfg(&'static [usize], usize, &'static [usize], usize, isize, usize, usize);
const FCFG: &[FCfg] = &[
    FCfg(&[2, 3], 1, &[2, 3], 20, 0, 2, 1),
    FCfg(&[2, 3], 40, &[2, 3], 3, 0, 2, 1),
    FCfg(&[2, 3], 1, &[2, 3], 3, -1, 1, 2),
    FCfg(&[3, 2], 1, &[2, 3], 20, 1, 1, 1),
    FCfg(&[6], 1, &[6], 20, 0, 2, 3),
    FCfg(&[6], 13, &[6], 5, 0, 3, 2),
    FCfg(&[2, 2, 2], 2, &[2, 2], 8, 1, 2, 2),
    FCfg(&[2, 2, 2], 2, &[2, 2, 2], 8, -2, 2, 4),
    FCfg(&[1], 4, &[1], 2, 0, 1, 1),
    FCfg(&[5], 4, &[5], 2, 0, 5, 1),
    FCfg(&[4, 4], 4, &[4, 4], 9, 0, 4, 4),
];

fn fval(k: usize) -> f32 {
    ((k * 37) % 23) as f32 * 0.75 - 6.
}

fn fbuild(dims: &[usize], base: usize, prov: Prov) -> F {
    let m = M { dims: dims.to_vec(), data: (0..shapes::size(dims)).map(|i| fval(base + i)).collect() };
    build(&m, prov)
}

fn bits(v: Vec<F>) -> Vec<(Vec<usize>, Vec<i64>)> {
    v.iter().map(|t| { let (d, b) = fshot(t); (d, b.into_iter().map(|b| if f32::from_bits(b).is_nan() { -1 } else { b as i64 }).collect()) }).collect()
}

fn odd(v: Vec<T>) -> Vec<(Vec<usize>, Vec<i64>)> {
    v.iter().map(shot).collect()
}

/// One item: an operation with a configuration of arguments.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Item {
    O(usize, usize),
    F(usize, usize),
    /// a float operation on operands of the sizes of the list
    S(usize, usize),
}

/// Sizes of operands for sequences of calls with growing and shrinking ones.
const SIZES: &[&[usize]] = &[
    &[2], &[7], &[8], &[9], &[16], &[17], &[31], &[32], &[33], &[63], &[64], &[65], &[70], &[90], &[100], &[128], &[129], &[200], &[257], &[300], &[513], &[600], &[900], &[1025],
    &[3, 3], &[3, 5], &[5, 3], &[3, 17], &[17, 3], &[17, 17], &[16, 16], &[33, 20], &[2, 70], &[2, 90], &[70, 2], &[3, 3, 17], &[17, 3, 3],
];

fn items() -> Vec<Item> {
    let mut v = Vec::new();
    for o in 0..OPS.len() {
        for k in 0..OCFG.len() { v.push(Item::O(o, k)); }
    }
    for f in 0..FOPS.len() {
        for k in 0..FCFG.len() { v.push(Item::F(f, k)); }
    }
    v
}

fn name(i: Item) -> String {
    match i {
        Item::O(o, k) => format!("{} on {:?}/{} {:?}/{}", OPS[o].0, OCFG[k].0, OCFG[k].1, OCFG[k].2, OCFG[k].3),
        Item::S(f, k) => format!("float {} on {:?}", FOPS[f].0, SIZES[k]),
        Item::F(f, k) => { let c = &FCFG[k]; format!("float {} on {:?}/{} {:?}/{} axis {} counts {} {}", FOPS[f].0, c.0, c.1, c.2, c.3, c.4, c.5, c.6) }
    }
}

/// Runs the item; the operands are built with the given provenances and
/// checked afterwards.
fn exec(i: Item, pa: Prov, pb: Prov) -> Result<Res, String> {
    match i {
        Item::O(o, k) => {
            let (da, ba, db, bb) = OCFG[k];
            let a = build(&M::<Tr>::seq(da, ba), pa);
            let b = build(&M::<Tr>::seq(db, bb), pb);
            let before = (shot(&a), shot(&b));
            let r = catch(|| odd(OPS[o].1(&a, &b))).ok();
            if (shot(&a), shot(&b)) != before { return Err(format!("{}: an operand changed", name(i))); }
            Ok(r)
        }
        Item::S(f, k) => {
            let d = SIZES[k];
            let (a, b) = (fbuild(d, 1, pa), fbuild(d, 5, pb));
            Ok(catch(|| bits(FOPS[f].2(&Args { a: &a, b: &b, x: 0, n: 2, m: 1 }))).ok())
        }
        Item::F(f, k) => {
            let c = &FCFG[k];
            let a = fbuild(c.0, c.1, pa);
            let b = fbuild(c.2, c.3, pb);
            let before = (fshot(&a), fshot(&b));
            let r = catch(|| bits(FOPS[f].2(&Args { a: &a, b: &b, x: c.4, n: c.5, m: c.6 }))).ok();
            if (fshot(&a), fshot(&b)) != before { return Err(format!("{}: an operand changed", name(i))); }
            Ok(r)
        }
    }
}

/// A process forked before the library has done anything; it answers each
/// request from a fork of its own.
struct Pristine {
    ask: i32,
    answer: i32,
    memo: RefCell<HashMap<Item, Rc<Res>>>,
}

unsafe fn put(fd: i32, data: &[i64]) {
    let bytes = data.len() * 8;
    let mut done = 0;
    while done < bytes {
        let n = libc::write(fd, (data.as_ptr() as *const u8).add(done) as *const libc::c_void, bytes - done);
        if n <= 0 { libc::_exit(1); }
        done += n as usize;
    }
}

unsafe fn get(fd: i32, n: usize) -> Option<Vec<i64>> {
    let mut v = vec![0i64; n];
    let mut done = 0;
    while done < n * 8 {
        let k = libc::read(fd, (v.as_mut_ptr() as *mut u8).add(done) as *mut libc::c_void, n * 8 - done);
        if k <= 0 { return None; }
        done += k as usize;
    }
    Some(v)
}

impl Pristine {
    fn start() -> Pristine {
        unsafe {
            let (mut q, mut a) = ([0i32; 2], [0i32; 2]);
            assert_eq!(libc::pipe(q.as_mut_ptr()), 0);
            assert_eq!(libc::pipe(a.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "harness: fork");
            if pid == 0 {
                libc::close(q[1]);
                libc::close(a[0]);
                while let Some(n) = get(q[0], 1) {
                    let n = n[0] as usize;
                    let Some(r) = get(q[0], 3 * n) else { break };
                    let pid = libc::fork();
                    if pid == 0 {
                        let mut out: Vec<i64> = vec![0];
                        for r in r.chunks(3) {
                            let (o, k) = (r[1] as usize, r[2] as usize);
                            let i = match r[0] { 0 => Item::O(o, k), 1 => Item::F(o, k), _ => Item::S(o, k) };
                            match exec(i, Prov::Own, Prov::Own) {
                                Ok(Some(v)) => {
                                    out.push(v.len() as i64);
                                    for (d, b) in v {
                                        out.push(d.len() as i64);
                                        out.extend(d.iter().map(|x| *x as i64));
                                        out.push(b.len() as i64);
                                        out.extend(b);
                                    }
                                }
                                _ => out.push(-1),
                            }
                        }
                        out[0] = out.len() as i64 - 1;
                        put(a[1], &out);
                        libc::_exit(0);
                    }
                    let mut st = 0;
                    libc::waitpid(pid, &mut st, 0);
                    if st != 0 {
                        let mut out = vec![n as i64];
                        out.resize(n + 1, -1);
                        put(a[1], &out);
                    }
                }
                libc::_exit(0);
            }
            libc::close(q[0]);
            libc::close(a[1]);
            Pristine { ask: q[1], answer: a[0], memo: RefCell::new(HashMap::new()) }
        }
    }

    /// The result of the item alone in a process of its own.
    fn of(&self, i: Item) -> Rc<Res> {
        if let Some(r) = self.memo.borrow().get(&i) { return r.clone(); }
        let r = Rc::new(self.run(&[i]).remove(0));
        self.memo.borrow_mut().insert(i, r.clone());
        r
    }

    /// The results of the items one after the other in a new process.
    fn run(&self, items: &[Item]) -> Vec<Res> {
        let v = unsafe {
            let mut q = vec![items.len() as i64];
            for i in items {
                let (t, o, k) = match i { Item::O(o, k) => (0, o, k), Item::F(o, k) => (1, o, k), Item::S(o, k) => (2, o, k) };
                q.extend([t, *o as i64, *k as i64]);
            }
            put(self.ask, &q);
            let n = get(self.answer, 1).expect("harness: no answer")[0];
            get(self.answer, n as usize).expect("harness: short answer")
        };
        let mut p = 0;
        items.iter().map(|_| {
            let n = v[p];
            p += 1;
            if n < 0 { return None; }
            let mut out = Vec::new();
            for _ in 0..n {
                let r = v[p] as usize;
                let d: Vec<usize> = v[p + 1..p + 1 + r].iter().map(|x| *x as usize).collect();
                p += 1 + r;
                let n = v[p] as usize;
                out.push((d, v[p + 1..p + 1 + n].to_vec()));
                p += 1 + n;
            }
            Some(out)
        }).collect()
    }
}

fn expect(got: Res, want: &Res, what: impl Fn() -> String) -> R {
    if &got != want {
        return Err(format!("{}: {} instead of {}", what(), show(&got), show(want)));
    }
    Ok(())
}

fn show(r: &Res) -> String {
    match r {
        None => "a panic".into(),
        Some(v) => { let s = format!("{v:?}"); s.chars().take(300).collect() }
    }
}

// ---- shared pool

fn pool_case(c: &mut Ctx, o1: usize, dims: &[usize]) -> R {
    // results of the operations on fresh operands, by operand contents
    let mut memo: HashMap<(usize, (Vec<usize>, Vec<i64>), (Vec<usize>, Vec<i64>)), Res> = HashMap::new();
    let fresh = |o: usize, x: &(Vec<usize>, Vec<i64>), y: &(Vec<usize>, Vec<i64>), memo: &mut HashMap<_, Res>| -> Res {
        memo.entry((o, x.clone(), y.clone())).or_insert_with(|| {
            let mk = |s: &(Vec<usize>, Vec<i64>)| Tensor::from_vec(s.1.iter().map(|v| Tr::new(*v)).collect::<Vec<_>>(), shape(&s.0));
            let (a, b) = (mk(x), mk(y));
            catch(|| odd(OPS[o].1(&a, &b))).ok()
        }).clone()
    };
    for first in 0..4 {
        for o2 in 0..OPS.len() {
            for second in 0..4 {
                track::reset();
                let a = build(&M::<Tr>::seq(dims, 1), Prov::Own);
                let mut pool = vec![a.clone(), a.subslice(1, dims[0] - 1), a.clone().flatten(), a.slice(dims[0] - 1), a];
                let mut want: Vec<_> = pool.iter().map(shot).collect();
                let check = |pool: &Vec<T>, want: &Vec<(Vec<usize>, Vec<i64>)>, what: String| -> R {
                    for (i, (t, w)) in pool.iter().zip(want).enumerate() {
                        if &shot(t) != w { return Err(format!("{what}: tensor {i} of the pool changed from {w:?} to {:?}", shot(t))); }
                    }
                    track::check().map_err(|e| format!("{what}: {e}"))
                };
                let (i, j) = [(4, 0), (4, 1), (1, 4), (4, 3)][first];
                c.tick();
                let r = catch(|| OPS[o1].1(&pool[i], &pool[j])).ok();
                let res = r.as_ref().map(|v| v.iter().map(shot).collect::<Vec<_>>());
                expect(res, &fresh(o1, &want[i], &want[j], &mut memo), || format!("first, operands {i} {j}"))?;
                check(&pool, &want, format!("after the first on {i} {j}"))?;
                let Some(r) = r else { continue };
                let base = pool.len();
                pool.extend(r);
                want.extend(pool[base..].iter().map(shot));
                let last = pool.len() - 1;
                let (i, j) = [(base, 4), (4, last), (last, base), (1, base)][second];
                if i >= pool.len() || j >= pool.len() { continue; }
                c.tick();
                let r = catch(|| OPS[o2].1(&pool[i], &pool[j])).ok();
                let res = r.as_ref().map(|v| v.iter().map(shot).collect::<Vec<_>>());
                expect(res, &fresh(o2, &want[i], &want[j], &mut memo), || format!("first choice {first}, then {} on {i} {j}", OPS[o2].0))?;
                check(&pool, &want, format!("first choice {first}, after {} on {i} {j}", OPS[o2].0))?;
                drop(r);
                check(&pool, &want, format!("first choice {first}, after dropping the results of {}", OPS[o2].0))?;
                c.state(&(o1, o2, dims, second));
            }
        }
    }
    Ok(())
}

// ---- consuming operations while other tensors share the storage

macro_rules! consuming {
    ($id:ident, $t:ty, $x:expr, [$($extra:tt)*]) => {
        fn $id() -> Vec<(&'static str, fn(Tensor<$t>, Tensor<$t>) -> Vec<Tensor<$t>>)> {
            let mut v: Vec<(&'static str, fn(Tensor<$t>, Tensor<$t>) -> Vec<Tensor<$t>>)> = vec![
                ("flatten", |a, _| vec![a.flatten()]),
                ("reshape", |a, _| { let n = a.size(); vec![a.reshape([n, 1])] }),
                ("squeeze", |a, _| vec![a.squeeze()]),
                ("expand_dims", |a, _| vec![a.expand_dims(0)]),
                ("chain", |a, _| { let n = a.size(); vec![a.flatten().expand_dims(1).reshape([1, n]).squeeze()] }),
                ("-a", |a, _| vec![-a]),
                ("a + b", |a, b| vec![a + b]),
                ("a - b", |a, b| vec![a - b]),
                ("a * &b", |a, b| vec![a * &b]),
                ("&a * b", |a, b| vec![&a * b]),
                ("a + x", |a, _| vec![a + $x]),
                ("a * a'", |a, _| { let b = a.clone(); vec![a * b] }),
                ("(a + b) - a", |a, b| { let c = a.clone(); vec![(a + b) - c] }),
                ("-(a + x)", |a, _| vec![-(a + $x)]),
                ("append", |a, b| { let (a, b) = (a.flatten(), b.flatten()); vec![a.append(b)] }),
                ("concatenate", |a, b| vec![array::concatenate(vec![a, b])]),
                ("concatenate_axis", |a, b| vec![array::concatenate_axis(-1, vec![a.clone(), b, a])]),
                ("stack", |a, b| vec![array::stack(vec![a, b])]),
                ("hstack", |a, b| vec![array::hstack(vec![a, b])]),
                ("dstack", |a, b| vec![array::dstack(vec![a, b])]),
                ("transpose", |a, _| vec![array::transpose(a)]),
                ("tile", |a, _| vec![array::tile(a, [2])]),
                ("From<Tensor>", |a, _| vec![Tensor::from(a)]),
                ("from_merge", |a, b| { let n = a.size() + b.size(); vec![Tensor::from_merge(&[a, b], [n])] }),
                ("drop", |_, _| vec![]),
            ];
            $(consuming!(@ v, $t, $extra);)*
            v
        }
    };
    (@ $v:ident, $t:ty, float) => {
        $v.push(("mul_add", |a, b| { let c = a.clone(); vec![a.mul_add(&b, &c)] }));
        $v.push(("x / a", |a, _| vec![2. / a]));
        $v.push(("a / b", |a, b| vec![a / b]));
        $v.push(("frame", |a, _| vec![signal::frame(a.flatten(), 2, 1)]));
        $v.push(("rfft_norm", |a, _| vec![signal::rfft_norm(a, ())]));
        $v.push(("histogram", |a, _| { let (x, y) = stats::histogram(a.flatten(), 3); vec![x, y] }));
        $v.push(("linspace", |a, b| vec![essay_tensor::init::linspace(a, b, 3)]));
    };
    (@ $v:ident, $t:ty, int) => {
        $v.push(("!a", |a, _| vec![!a]));
        $v.push(("a & b", |a, b| vec![a & b]));
        $v.push(("a << x", |a, _| vec![a << 1]));
    };
}

consuming!(cons_tr, Tr, Tr::new(4), []);
consuming!(cons_i32, i32, 4, [int]);
consuming!(cons_f32, f32, 4., [float]);

fn consume_cases<E: Elem + PartialEq>(c: &mut Ctx, ty: &str, list: Vec<(&'static str, fn(Tensor<E>, Tensor<E>) -> Vec<Tensor<E>>)>, key: fn(&E) -> i64) {
    let read = |t: &Tensor<E>| -> (Vec<usize>, Vec<i64>) { (t.shape().as_vec(), t.iter().map(key).collect()) };
    for (name, f) in &list {
        for dims in [&[4][..], &[1], &[2, 2], &[2, 3], &[3, 1, 2], &[64], &[100], &[8, 16]] {
            for pa in ALL_PROV {
                for shared_b in 0..3 {
                    c.case("consumed", || format!("{ty} {name} {dims:?} {pa:?}, b kind {shared_b}"), |c| {
                        let mut first: Res = None;
                        for holders in 0..32 {
                            track::reset();
                            let n = shapes::size(dims);
                            let a = build(&M::<E>::seq(dims, 1), pa);
                            let b = match shared_b {
                                0 => build(&M::<E>::seq(dims, 40), Prov::Own),
                                1 => a.clone(),
                                _ => a.subslice_flat(0, n, a.shape()),
                            };
                            let mut held = Vec::new();
                            if holders & 1 != 0 { held.push(a.clone()); }
                            if holders & 2 != 0 { held.push(a.subslice_flat(n / 2, n - n / 2, [n - n / 2])); }
                            if holders & 4 != 0 { held.push(a.slice(0)); }
                            if holders & 8 != 0 { held.push(b.clone().flatten()); }
                            if holders & 16 != 0 { let t = a.clone(); held.push(t.subslice(0, 1)); }
                            let want: Vec<_> = held.iter().map(read).collect();
                            c.tick();
                            let r = catch(|| f(a, b)).ok();
                            let res = r.as_ref().map(|v| v.iter().map(read).collect::<Vec<_>>());
                            for (i, (h, w)) in held.iter().zip(&want).enumerate() {
                                if &read(h) != w { return Err(format!("holders {holders:05b}: held tensor {i} changed from {w:?} to {:?}", read(h))); }
                            }
                            if holders == 0 { first = res; } else { expect(res, &first, || format!("holders {holders:05b}"))?; }
                            drop(held);
                            if let (Some(v), Some(w)) = (&r, &first) {
                                for (t, w) in v.iter().zip(w) {
                                    if &read(t) != w { return Err(format!("holders {holders:05b}: the result changed when the others were dropped")); }
                                }
                            }
                            track::check()?;
                        }
                        c.state(&(ty, name, dims, pa, shared_b));
                        Ok(())
                    });
                }
            }
        }
    }
}

fn main() {
    run("C02", |c| {
        // the reference: each item alone in a process of its own
        let all = items();
        let memo = &Pristine::start();

        // however the operands came about
        for &i in &all {
            c.case("provenance", || name(i), |c| {
                for pa in ALL_PROV {
                    for pb in ALL_PROV {
                        track::reset();
                        c.tick();
                        let got = exec(i, pa, pb)?;
                        expect(got, &memo.of(i), || format!("{pa:?} {pb:?}"))?;
                        track::check()?;
                    }
                }
                c.state(&i);
                c.outcome(&memo.of(i));
                Ok(())
            });
        }

        // whatever was computed before
        let shared = ["clone", "map_row 2", "fold_axis 0", "normalize 0", "concatenate", "split 0", "transpose", "tile", "meshgrid"];
        for &i in &all {
            if c.quick() {
                // in the quick tier the first item ranges over the float
                // operations and the tracked ones of the list
                if let Item::O(o, _) = i {
                    if !shared.contains(&OPS[o].0) { continue; }
                }
            }
            let all = &all;
            c.case("pairs", || format!("{} before all", name(i)), |c| {
                for &j in all {
                    if let (Item::O(..), true) = (j, c.quick()) {
                        if matches!(i, Item::F(_, k) if k != 0) { continue; }
                    }
                    track::reset();
                    exec(i, Prov::Own, Prov::Own)?;
                    let got = exec(j, Prov::Own, Prov::Own)?;
                    c.ticks(2);
                    expect(got, &memo.of(j), || format!("{} afterwards", name(j)))?;
                }
                c.state(&(i, 1));
                Ok(())
            });
        }

        // all pairs of operations in a process without any other history
        for f in 0..FOPS.len() {
            c.case("fresh pairs", || FOPS[f].0.to_string(), |c| {
                for g in 0..FOPS.len() {
                    for (a, b) in c.pick(vec![(0, 1)], vec![(0, 1), (2, 3), (4, 5)]) {
                        let n = FCFG.len();
                        let seq = [Item::F(f, a % n), Item::F(g, b % n), Item::F(f, (b + 1) % n), Item::F(g, a % n)];
                        c.ticks(4);
                        for (i, r) in seq.iter().zip(memo.run(&seq)) {
                            expect(r, &memo.of(*i), || format!("{} in {:?}", name(*i), seq.map(name)))?;
                        }
                    }
                    c.state(&(f, g, 3));
                }
                Ok(())
            });
        }

        // calls of one operation with operands of other sizes in between
        for f in 0..FOPS.len() {
            let n = SIZES.len();
            let check = |c: &mut Ctx, seq: &[usize]| -> R {
                // grids and diagonals of long operands take too much memory
                let grows = ["meshgrid", "mgrid", "diag"].iter().any(|g| FOPS[f].0.contains(g));
                let seq: Vec<usize> = seq.iter().copied().filter(|q| !grows || size(SIZES[*q]) <= 17).collect();
                let items: Vec<Item> = seq.iter().map(|q| Item::S(f, *q)).collect();
                c.ticks(seq.len() as u64);
                for (at, (i, r)) in items.iter().zip(memo.run(&items)).enumerate() {
                    let history = || format!("{:?} after {:?}", SIZES[seq[at]], seq[..at].iter().map(|q| SIZES[*q]).collect::<Vec<_>>());
                    expect(r, &memo.of(*i), history)?;
                }
                Ok(())
            };
            // every ordered pair, in a process without any other history
            c.case("sizes", || format!("{} pairs", FOPS[f].0), |c| {
                for k in 0..n {
                    for l in 0..n {
                        if c.quick() && (k % 2 == 1 || l % 2 == 1) && k.abs_diff(l) > 3 { continue; }
                        check(c, &[k, l, k])?;
                        c.state(&(f, k, l, 2));
                    }
                }
                Ok(())
            });
            // all sizes in several orders
            c.case("sizes", || format!("{} runs", FOPS[f].0), |c| {
                for step in [1, n - 1, 5, n - 5, 7, n - 7, 11, 13] {
                    let mut seq: Vec<usize> = (0..2 * n).map(|i| (i * step + step) % n).collect();
                    check(c, &seq)?;
                    seq.reverse();
                    check(c, &seq)?;
                }
                Ok(())
            });
        }

        // the same storage address with other contents and shapes
        for f in 0..FOPS.len() {
            c.case("reused address", || FOPS[f].0.to_string(), |c| {
                let mut reused = 0;
                for k in 0..FCFG.len() {
                    for l in 0..FCFG.len() {
                        let mut at = Vec::new();
                        for (n, q) in [k, l, k, l].into_iter().enumerate() {
                            let cf = &FCFG[q];
                            let (a, b) = (fbuild(cf.0, cf.1, Prov::Own), fbuild(cf.2, cf.3, Prov::Own));
                            at.push(a.as_slice().as_ptr() as usize);
                            let args = Args { a: &a, b: &b, x: cf.4, n: cf.5, m: cf.6 };
                            let r = catch(|| bits(FOPS[f].2(&args))).ok();
                            let again = catch(|| bits(FOPS[f].2(&args))).ok();
                            c.ticks(2);
                            expect(r, &memo.of(Item::F(f, q)), || format!("configuration {q} as number {n} of [{k}, {l}, {k}, {l}]"))?;
                            expect(again, &memo.of(Item::F(f, q)), || format!("configuration {q} as number {n} of [{k}, {l}, {k}, {l}], repeated"))?;
                        }
                        at.sort();
                        at.dedup();
                        if at.len() < 4 { reused += 1; }
                    }
                }
                c.outcome(&(reused > 0));
                Ok(())
            });
        }

        // consumed operands
        consume_cases::<Tr>(c, "tracked", cons_tr(), |v| v.get());
        consume_cases::<i32>(c, "i32", cons_i32(), |v| *v as i64);
        consume_cases::<f32>(c, "f32", cons_f32(), |v| if v.is_nan() { -1 } else { v.to_bits() as i64 });

        // a pool of tensors sharing one storage
        for dims in [&[2, 2][..], &[3], &[3, 2]] {
            for o1 in 0..OPS.len() {
                if c.quick() && dims.len() == 2 && dims[0] == 3 { continue; }
                c.case("shared pool", || format!("{} on {dims:?}", OPS[o1].0), |c| pool_case(c, o1, dims));
            }
        }

        // inside callbacks
        for (hn, h) in HOSTS {
            for dims in [&[3][..], &[2, 2], &[2, 3, 2]] {
                for &j in &all {
                    if matches!(j, Item::F(_, k) if c.quick() && k % 3 != 0) || matches!(j, Item::O(_, k) if c.quick() && k > 1) { continue; }
                    c.case("re-entrant", || format!("{} inside {hn} {dims:?}", name(j)), |c| {
                        track::reset();
                        let a = build(&M::<Tr>::seq(dims, 1), Prov::Mid);
                        let before = shot(&a);
                        let want = catch(|| odd(h(&a, &mut || {})));
                        for nested in [false, true] {
                            let mut bad: R = Ok(());
                            let got = catch(|| odd(h(&a, &mut || {
                                if bad.is_err() { return; }
                                let mut run = || { c.tick(); bad = exec(j, Prov::Own, Prov::Own).and_then(|r| expect(r, &memo.of(j), || "inner result".into())); };
                                if nested {
                                    let inner = build(&M::<Tr>::seq(&[2], 1), Prov::Own);
                                    let _ = catch(|| h(&inner, &mut run));
                                } else {
                                    run();
                                }
                            })));
                            bad?;
                            if got.as_ref().ok() != want.as_ref().ok() { return Err(format!("outer result {got:?} instead of {want:?} (nested: {nested})")); }
                            if shot(&a) != before { return Err("the outer operand changed".into()); }
                            track::check()?;
                        }
                        c.state(&(hn, dims, j));
                        Ok(())
                    });
                }
            }
        }
    });
}
