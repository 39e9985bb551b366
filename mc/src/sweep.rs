//! Every operation with valid and invalid arguments: each call completes or
//! panics, touches nothing outside its operands and result, and its result
//! depends on nothing but the operands (not on what surrounds a view, not on
//! what fresh memory happens to contain).

use std::panic::AssertUnwindSafe;

use essay_tensor::array;
use essay_tensor::init;
use essay_tensor::tensor::{Tensor, Type};

use crate::ctx::{catch, Ctx, R};
use crate::fops::{fshot, Args, F, FOPS};
use crate::gens::{gens, Al, Gen, Odd, Owned, Unit, Wide};
use crate::model::{build, Prov, M};
use crate::ops::OPS;
use crate::shapes::{lists, size};
use crate::track::{self, Tr};

/// What differs between the builds: control over fresh memory and the verdict
/// of the allocator after a call.
#[derive(Clone, Copy)]
pub struct Probe {
    pub fill: Option<fn(u8)>,
    pub verdict: fn() -> R,
    pub limit: fn(usize),
}

type Shot = Result<Vec<(Vec<usize>, Vec<u32>)>, ()>;

fn shot(f: impl FnOnce() -> Vec<F>) -> Shot {
    match catch(f) {
        Ok(v) => Ok(v.iter().map(|t| {
            let (d, mut b) = fshot(t);
            for x in &mut b {
                if f32::from_bits(*x).is_nan() { *x = 0x7fc0_0000; }
            }
            (d, b)
        }).collect()),
        Err(_) => Err(()),
    }
}

fn diff(what: &str, a: &Shot, b: &Shot) -> R {
    if a == b { return Ok(()); }
    let text = |s: &Shot| match s {
        Err(_) => "a panic".to_string(),
        Ok(v) => v.iter().map(|(d, b)| format!("{d:?} {:?}", b.iter().take(12).map(|x| f32::from_bits(*x)).collect::<Vec<_>>())).collect::<Vec<_>>().join("; "),
    };
    Err(format!("{what}: {} or {}", text(a), text(b)))
}

/// One call in every environment.
fn once(p: &Probe, a: &M<f32>, b: &M<f32>, f: impl Fn(&F, &F) -> Vec<F>, plain: bool) -> R {
    let run = |pa: Prov, pb: Prov| {
        let (x, y) = (build(a, pa), build(b, pb));
        let s = shot(|| f(&x, &y));
        // the operands are as they were
        if fshot(&x).1 != bits(a) || fshot(&y).1 != bits(b) { return Err("an operand was overwritten".to_string()); }
        Ok(s)
    };
    if let Some(fill) = p.fill { fill(0xA5); }
    let first = run(Prov::Own, Prov::Own)?;
    (p.verdict)()?;
    if let Ok(v) = &first {
        if v.iter().any(|(_, b)| b.iter().any(|x| *x == 0xA5A5_A5A5)) { return Err("an element of the result was never initialised".into()); }
    }
    if let Some(fill) = p.fill {
        fill(0x3C);
        diff("the result depends on what fresh memory contains", &first, &run(Prov::Own, Prov::Own)?)?;
        fill(0xA5);
    }
    if !plain {
        let view = run(Prov::Mid, Prov::Nested)?;
        (p.verdict)()?;
        diff("the result depends on what surrounds the operands", &first, &view)?;
    }
    Ok(())
}

fn bits(m: &M<f32>) -> Vec<u32> {
    m.data.iter().map(|x| x.to_bits()).collect()
}

fn axes() -> Vec<isize> {
    let mut v: Vec<isize> = (-9..=9).collect();
    for e in [31, 32, 33, 62] { v.extend([1 << e, (1 << e) - 1, (1 << e) + 1, -(1 << e), -(1 << e) - 1, -(1 << e) + 1]); }
    v.extend([isize::MIN, isize::MIN + 1, isize::MIN + 2, isize::MAX - 2, isize::MAX - 1, isize::MAX]);
    v
}

fn counts(quick: bool) -> Vec<usize> {
    if quick { return vec![0, 1, 2, 3, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 62, (1 << 63) - 1, 1 << 63, usize::MAX - 1, usize::MAX]; }
    let mut v: Vec<usize> = (0..=4).collect();
    v.extend([1 << 16, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, 1 << 33, 1 << 40, 1 << 61, 1 << 62, (1 << 62) + 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, usize::MAX - 2, usize::MAX - 1, usize::MAX]);
    v
}

/// Runs the items in child processes: a refused allocation ends the child and
/// counts as a refusal of that item; any other end is a violation.
fn children(c: &mut Ctx, p: &Probe, n: usize, f: impl Fn(usize) -> R) -> R {
    unsafe {
        let word = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u64;
        assert!(word as isize != -1, "harness: mmap");
        let mut start = 0;
        let mut verdict = Ok(());
        while start < n {
            let fd = libc::memfd_create(c"err".as_ptr(), 0);
            assert!(fd >= 0, "harness: memfd");
            word.write_volatile(start as u64);
            let pid = libc::fork();
            assert!(pid >= 0, "harness: fork");
            if pid == 0 {
                libc::dup2(fd, 2);
                let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &none);
                (p.limit)(1 << 25);
                for i in start..n {
                    word.write_volatile(i as u64);
                    libc::alarm(5);
                    let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(i))).unwrap_or_else(|_| Err("harness panic".into()));
                    if let Err(e) = r {
                        libc::write(2, e.as_ptr() as *const _, e.len());
                        libc::_exit(9);
                    }
                }
                libc::_exit(0);
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            let at = word.read_volatile() as usize;
            let mut text = vec![0u8; 4000];
            let got = libc::pread(fd, text.as_mut_ptr() as *mut _, text.len(), 0).max(0) as usize;
            text.truncate(got);
            let text = String::from_utf8_lossy(&text).to_string();
            libc::close(fd);
            c.ticks((at - start + 1) as u64);
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 { break; }
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 9 {
                verdict = Err(format!("item {at}: {text}"));
                break;
            }
            let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
            if sig == libc::SIGABRT && text.contains("memory allocation of ") || sig == libc::SIGALRM {
                if sig == libc::SIGALRM && std::env::var("MC_TRACE").is_ok() { eprintln!("item {at} timed out"); }
                start = at + 1;
                continue;
            }
            let line = text.lines().find(|l| l.contains("ERROR")).unwrap_or(&text);
            verdict = Err(format!("item {at}: the process ended with signal {sig} (status {st}): {}", line.chars().take(400).collect::<String>()));
            break;
        }
        libc::munmap(word as *mut _, 4096);
        verdict
    }
}

fn generic<E: Type + crate::elem::Elem>(c: &mut Ctx, p: Probe, kind: &str, ds: &[Vec<usize>]) {
    let list: Vec<(&'static str, Gen<E>)> = gens::<E>();
    for (name, g) in list {
        for d in ds {
            c.case("layouts", || format!("{kind} {name} {d:?}"), |c| {
                c.state(&(kind, name, d));
                for pr in [Prov::Own, Prov::Mid, Prov::Tail] {
                    c.tick();
                    let a = build(&M::<E>::seq(d, 1), pr);
                    let r = catch(|| g(&a));
                    c.outcome(&(name, r.is_ok()));
                    for t in r.iter().flatten() { let _ = format!("{:?}", t.as_slice()); }
                    drop(r);
                    if a.as_slice() != &M::<E>::seq(d, 1).data[..] { return Err("the operand was overwritten".into()); }
                    drop(a);
                    (p.verdict)()?;
                }
                Ok(())
            });
        }
    }
}

pub fn explore(c: &mut Ctx, p: Probe) {
    // all shapes of rank 0..3 with dims 0..3, some beyond
    let mut ds: Vec<Vec<usize>> = Vec::new();
    for r in 0..=c.pick(2, 3) { ds.extend(lists(r, &[0, 1, 2, 3])); }
    for d in [[1, 1, 1], [2, 1, 3], [3, 2, 1], [2, 2, 2], [1, 2, 3], [2, 3, 2], [0, 2, 2], [2, 0, 2], [2, 2, 0], [4, 1, 2], [2, 3, 3]] { ds.push(d.to_vec()); }
    ds.extend([vec![4], vec![5], vec![6], vec![7], vec![9], vec![4, 2], vec![2, 4], vec![5, 1], vec![4, 4], vec![1, 5]]);
    ds.extend([vec![1, 2, 2, 2], vec![2, 2, 1, 2], vec![2, 1, 0, 2], vec![2, 2, 1, 2, 1], vec![1, 1, 1, 1, 1, 1], vec![1, 2, 1, 2, 1, 2], vec![2, 1, 2, 1, 1, 3]]);
    ds.sort();
    ds.dedup();
    let few: Vec<Vec<usize>> = vec![vec![], vec![0], vec![1], vec![3], vec![6], vec![2, 3], vec![3, 2], vec![2, 0], vec![0, 2], vec![1, 1], vec![2, 2, 2], vec![2, 0, 2], vec![1, 2, 1, 2], vec![1, 1, 1, 1, 1, 1]];

    for (name, uses, f) in FOPS {
        let two = uses.contains('b');
        for da in &ds {
            for db in if two { &ds[..] } else { std::slice::from_ref(da) } {
                c.case("operands", || format!("{name} {da:?} {db:?}"), |c| {
                    c.state(&(name, da, db));
                    let small: Vec<isize> = if two { vec![-4, -3, -2, -1, 0, 1, 2, 3, 4, 9, isize::MIN, isize::MAX] } else { axes() };
                    let xs: Vec<isize> = if uses.contains('x') { small } else { vec![0] };
                    let (mut ns, mut ms): (Vec<usize>, Vec<usize>) = (vec![1], vec![1]);
                    if uses.contains('n') { ns = if two { vec![0, 1, 2, 3, 5] } else { (0..=7).collect() }; }
                    if uses.contains('m') { ms = if two { vec![0, 1, 2, 3, 6] } else { (0..=6).collect() }; }
                    if uses.contains('x') && uses.contains('n') { ns.truncate(5); ms.truncate(5); }
                    let (a, b) = (M::<f32>::seq(da, 1), M::<f32>::seq(db, 3));
                    for &x in &xs {
                        for &n in &ns {
                            for &m in &ms {
                                c.ticks(if p.fill.is_some() { 3 } else { 2 });
                                once(&p, &a, &b, |a, b| f(&Args { a, b, x, n, m }), false)
                                    .map_err(|e| format!("axis {x}, counts {n} {m}: {e}"))?;
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }

    // counts and axes at the limits
    for (name, uses, f) in FOPS {
        if !uses.contains('n') { continue; }
        for da in &few {
            for db in if uses.contains('b') { &few[..] } else { std::slice::from_ref(da) } {
                if uses.contains('b') && c.quick() && da.len() != db.len() { continue; }
                c.case("limits", || format!("{name} {da:?} {db:?}"), |c| {
                    c.state(&(name, da, db, 1));
                    let ns = counts(c.quick());
                    let ms = if uses.contains('m') { counts(c.quick()) } else { vec![1] };
                    let xs: Vec<isize> = if uses.contains('x') { vec![0, 1, -1] } else { vec![0] };
                    let mut items = Vec::new();
                    for &x in &xs { for &n in &ns { for &m in &ms { if n > 4 || m > 4 { items.push((x, n, m)); } } } }
                    let (a, b) = (M::<f32>::seq(da, 1), M::<f32>::seq(db, 3));
                    children(c, &p, items.len(), |i| {
                        let (x, n, m) = items[i];
                        once(&p, &a, &b, |a, b| f(&Args { a, b, x, n, m }), true).map_err(|e| format!("axis {x}, counts {n} {m}: {e}"))
                    })
                });
            }
        }
    }

    // special values as data
    let vals = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 1e30, -1.0, 2.5, 3e9, -3e9, 16777216.0];
    for (name, uses, f) in FOPS {
        for len in 1..=c.pick(2, 3) {
            for pick in lists(len, &(0..vals.len()).collect::<Vec<_>>()) {
                c.case("values", || format!("{name} {:?}", pick.iter().map(|i| vals[*i]).collect::<Vec<_>>()), |c| {
                    let data: Vec<f32> = pick.iter().map(|i| vals[*i]).collect();
                    c.state(&(name, &pick));
                    let mut shapes = vec![vec![len], vec![1, len]];
                    if len == 2 { shapes.push(vec![2, 1]); }
                    for d in shapes {
                        let a = M::new(&d, data.clone());
                        let b = M::new(&d, data.iter().rev().copied().collect());
                        for x in if uses.contains('x') { vec![0isize, -1] } else { vec![0] } {
                            for n in if uses.contains('n') { vec![1usize, 2, 5] } else { vec![1] } {
                                c.ticks(2);
                                once(&p, &a, &b, |a, b| f(&Args { a, b, x, n, m: 2 }), true).map_err(|e| format!("{d:?}, axis {x}, count {n}: {e}"))?;
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }

    // lists of three tensors of any shapes
    let ls: Vec<Vec<usize>> = vec![vec![], vec![0], vec![1], vec![2], vec![3], vec![4], vec![1, 2], vec![2, 1], vec![2, 2], vec![2, 3], vec![3, 2], vec![0, 2], vec![2, 0], vec![1, 2, 2], vec![2, 2, 1], vec![2, 1, 2], vec![1, 1, 2, 2]];
    type L = fn(&[F], isize) -> Vec<F>;
    let lops: &[(&str, bool, L)] = &[
        ("concatenate", false, |l, _| vec![array::concatenate(l.to_vec())]),
        ("concatenate_axis", true, |l, x| vec![array::concatenate_axis(x, l.to_vec())]),
        ("stack", false, |l, _| vec![array::stack(l.to_vec())]),
        ("stack_axis", true, |l, x| vec![array::stack_axis(x, l.to_vec())]),
        ("hstack", false, |l, _| vec![array::hstack(l.to_vec())]),
        ("vstack", false, |l, _| vec![array::vstack(l.to_vec())]),
        ("dstack", false, |l, _| vec![array::dstack(l.to_vec())]),
        ("from", false, |l, _| vec![Tensor::from(l)]),
        ("from_merge", false, |l, _| { let n: usize = l.iter().map(|t| t.size()).sum(); vec![Tensor::from_merge(l, [n])] }),
        ("from_merge first", false, |l, _| vec![Tensor::from_merge(l, [l.len(), l[0].size()])]),
        ("meshgrid", false, |l, _| init::meshgrid([&l[0], &l[1], &l[2]]).to_vec()),
        ("meshgrid_ij", false, |l, _| init::meshgrid_ij([&l[0], &l[1], &l[2]]).to_vec()),
        ("map3", false, |l, _| vec![l[0].map3(&l[1], &l[2], |a, b, c| a + b * c)]),
        ("append", false, |l, _| vec![l[0].append(&l[1]).append(&l[2])]),
        ("map2 chain", false, |l, _| vec![l[0].map2(&l[1], |a, b| a - b).map2(&l[2], |a, b| a * b)]),
        ("matmul chain", false, |l, _| vec![l[0].matmul(&l[1]).matmul(&l[2])]),
        ("mul_add", false, |l, _| vec![num_traits::MulAdd::mul_add(l[0].clone(), &l[1], &l[2])]),
    ];
    for (name, ax, f) in lops {
        for x in &ls {
            for y in &ls {
                for z in &ls {
                    c.case("lists", || format!("{name} {x:?} {y:?} {z:?}"), |c| {
                        c.state(&(name, x, y, z));
                        let ms: Vec<M<f32>> = [x, y, z].iter().enumerate().map(|(i, d)| M::seq(d, 1 + 10 * i)).collect();
                        let axes: &[isize] = if *ax { &[-3, -2, -1, 0, 1, 2, 3] } else { &[0] };
                        for &axis in axes {
                            c.ticks(2);
                            let go = |pr: Prov| {
                                let l: Vec<F> = ms.iter().map(|m| build(m, pr)).collect();
                                shot(|| f(&l, axis))
                            };
                            if let Some(fill) = p.fill { fill(0xA5); }
                            let a = go(Prov::Own);
                            (p.verdict)()?;
                            if let Some(fill) = p.fill { fill(0x3C); }
                            let b = go(Prov::Mid);
                            (p.verdict)()?;
                            diff("the result depends on what surrounds the operands or fresh memory contains", &a, &b)?;
                            if let Ok(v) = &a {
                                if v.iter().any(|(_, b)| b.iter().any(|x| *x == 0xA5A5_A5A5)) { return Err("an element of the result was never initialised".into()); }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }

    // owning elements
    let os: Vec<Vec<usize>> = if c.quick() { few.clone() } else { ds.clone() };
    for (name, f) in OPS {
        for da in &os {
            for db in &os {
                c.case("owning", || format!("{name} {da:?} {db:?}"), |c| {
                    c.state(&(name, da, db, 2));
                    c.tick();
                    let (a, b) = (build(&M::<Tr>::seq(da, 1), Prov::Mid), build(&M::<Tr>::seq(db, 50), Prov::Own));
                    let r = catch(|| f(&a, &b));
                    for t in r.iter().flatten() { t.iter().for_each(|e| { e.get(); }); }
                    drop((r, a, b));
                    let bad = track::check();
                    track::reset();
                    bad?;
                    (p.verdict)()
                });
            }
        }
    }
    let gs: Vec<Vec<usize>> = ds.iter().filter(|d| size(d) <= 16).cloned().collect();
    generic::<Al>(c, p, "aligned to 64", &gs);
    generic::<Odd>(c, p, "3 bytes", &gs);
    generic::<Wide>(c, p, "u128", &gs);
    generic::<Owned>(c, p, "owning", &gs);
    generic::<Unit>(c, p, "zero-sized", &gs);
}
