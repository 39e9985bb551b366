//! C03: concurrent use of shared tensors, under every bounded schedule.
use std::sync::{Arc, Mutex};

use essay_tensor::tensor::Tensor;
use mc::fops::{fshot, Args, F, FOPS};
use mc::ops::{shot, OPS, T};
use mc::sched::{explore, explore_step, no_step, Body};
use mc::track::Tr;
use mc::*;

type Res = Option<Vec<(Vec<usize>, Vec<i64>)>>;

const SHARED: &[&str] = &[
    "clone", "map", "map_row 2", "map2", "init_rindexed", "fold_axis 0", "fold_row 0", "normalize 0", "reduce_axis 0", "slice", "concatenate", "stack_axis", "unstack 0", "split 0", "tile",
    "transpose", "meshgrid", "&a + &b", "from_vec spare", "collect owned", "debug",
];

fn operands(k: usize) -> (T, T) {
    match k {
        0 => {
            let a = build(&M::<Tr>::seq(&[2, 2], 1), Prov::Own);
            let b = a.clone();
            (a, b)
        }
        1 => {
            let a = build(&M::<Tr>::seq(&[3], 1), Prov::Nested);
            let b = a.subslice_flat(0, 3, [3]);
            (a, b)
        }
        _ => {
            let a = build(&M::<Tr>::seq(&[2, 1, 2], 1), Prov::Outer);
            let b = a.slice(0).flatten();
            (a, b)
        }
    }
}

fn run_op(op: usize, a: &T, b: &T) -> Res {
    catch(|| OPS[op].1(a, b)).ok().map(|v| v.iter().map(shot).collect())
}

/// Two or three threads, each applying one operation to clones of the same
/// operands; the last owner of the storage is one of the threads.
fn ops_case(c: &mut Ctx, ops: &[usize], k: usize, bound: usize) -> R {
    track::reset();
    let want: Vec<Res> = { let (a, b) = operands(k); ops.iter().map(|o| run_op(*o, &a, &b)).collect() };
    track::reset();
    let got: Arc<Mutex<Vec<Option<Res>>>> = Arc::new(Mutex::new(Vec::new()));
    let make = || {
        track::reset();
        got.lock().unwrap().clear();
        got.lock().unwrap().resize(ops.len(), None);
        let (a, b) = operands(k);
        ops.iter().enumerate().map(|(i, o)| {
            let (a, b, o, got) = (a.clone(), b.clone(), *o, got.clone());
            Box::new(move || {
                let r = run_op(o, &a, &b);
                sched::yield_point();
                drop(b);
                sched::yield_point();
                drop(a);
                sched::yield_point();
                got.lock().unwrap()[i] = Some(r);
            }) as Body
        }).collect::<Vec<Body>>()
    };
    let panics = want.iter().any(|w| w.is_none());
    let x = explore(bound, u64::MAX, make, |_| {
        let g = got.lock().unwrap();
        for (i, w) in want.iter().enumerate() {
            match &g[i] {
                Some(r) if r == w => {}
                other => return Err(format!("thread {i} ({}) got {other:?}, alone it gets {w:?}", OPS[ops[i]].0)),
            }
        }
        track::check()?;
        if !panics && track::live() != 0 { return Err(format!("{} elements alive at the end", track::live())); }
        Ok(())
    })?;
    c.ticks(x.executions);
    c.outcome(&x.executions);
    c.state(&(ops, k));
    Ok(())
}

/// What one thread does with its handle on shared storage, instruction by
/// instruction.
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Act {
    Drop,
    CloneDrop,
    CloneKeep,
    View,
    Slice,
    Reshape,
    Read,
    Get,
    Map,
    Merge,
}
const ACTS: [Act; 10] = [Act::Drop, Act::CloneDrop, Act::CloneKeep, Act::View, Act::Slice, Act::Reshape, Act::Read, Act::Get, Act::Map, Act::Merge];

fn act(t: T, a: Act) -> i64 {
    let sum = |t: &T| t.iter().map(|v| v.get()).sum::<i64>();
    match a {
        Act::Drop => { drop(t); 0 }
        Act::CloneDrop => { let u = t.clone(); drop(t); let s = sum(&u); drop(u); s }
        Act::CloneKeep => { let u = t.clone(); drop(u); let s = sum(&t); drop(t); s }
        Act::View => { let u = t.subslice(1, 1); drop(t); sum(&u) }
        Act::Slice => { let u = t.slice(0); let v = u.clone(); drop(u); drop(t); sum(&v) }
        Act::Reshape => sum(&t.reshape([2, 1])),
        Act::Read => sum(&t),
        Act::Get => t.get(1).map(|v| v.get()).unwrap_or(-1),
        Act::Map => { let u = t.map(|v| Tr::new(v.get() + 1)); drop(t); sum(&u) }
        Act::Merge => { let u = Tensor::from_merge(&[t.clone(), t], [4]); sum(&u) }
    }
}

fn steps_case(c: &mut Ctx, acts: &[Act], bound: usize, occ: u8) -> R {
    let fresh = || build(&M::<Tr>::seq(&[2], 1), Prov::Own);
    track::reset();
    let want: Vec<i64> = acts.iter().map(|a| act(fresh(), *a)).collect();
    let got: Arc<Mutex<Vec<Option<i64>>>> = Arc::new(Mutex::new(Vec::new()));
    let make = || {
        track::reset();
        got.lock().unwrap().clear();
        got.lock().unwrap().resize(acts.len(), None);
        let t = fresh();
        acts.iter().enumerate().map(|(i, a)| {
            let (t, a, got) = (t.clone(), *a, got.clone());
            Box::new(move || {
                let r = act(t, a);
                let _g = no_step();
                got.lock().unwrap()[i] = Some(r);
                drop(got);
            }) as Body
        }).collect::<Vec<Body>>()
    };
    let x = explore_step(bound, u64::MAX, Some(occ), make, |_| {
        let g = got.lock().unwrap();
        for (i, w) in want.iter().enumerate() {
            if g[i] != Some(*w) { return Err(format!("thread {i} ({:?}) got {:?}, alone it gets {w}", acts[i], g[i])); }
        }
        track::check()?;
        if track::live() != 0 { return Err(format!("{} elements alive at the end", track::live())); }
        Ok(())
    })?;
    c.ticks(x.executions);
    c.outcome(&x.executions);
    c.state(&acts);
    Ok(())
}

struct FCfg(&'static [usize], &'static [usize], isize, usize, usize);
const FCFG: &[FCfg] = &[
    FCfg(&[2, 3], &[2, 3], 0, 2, 1),
    FCfg(&[3, 2], &[2, 3], -1, 1, 1),
    FCfg(&[6], &[6], 0, 2, 3),
    FCfg(&[2, 2, 2], &[2, 2], 1, 2, 2),
    FCfg(&[2, 2], &[2], 1, 2, 2),
];

fn fval(k: usize) -> f32 {
    ((k * 37) % 23) as f32 * 0.75 - 6.
}

fn fmake(d: &[usize], base: usize) -> F {
    build(&M { dims: d.to_vec(), data: (0..shapes::size(d)).map(|i| fval(base + i)).collect() }, Prov::Own)
}

fn frun(f: usize, a: &F, b: &F, k: usize) -> Vec<(Vec<usize>, Vec<u32>)> {
    let g = &FCFG[k];
    let r = FOPS[f].2(&Args { a, b, x: g.2, n: g.3, m: g.4 });
    let _g = no_step();
    let v = r.iter().map(fshot).collect();
    drop(r);
    v
}

/// Instruction-level schedules of one float operation on shared operands
/// (thread 0) against itself or another on other operands (thread 1).
fn float_case(c: &mut Ctx, f: (usize, usize), k: (usize, usize), occ: u8) -> R {
    let mk = |k: usize| (fmake(FCFG[k].0, 1 + 30 * k), fmake(FCFG[k].1, 9 + 7 * k));
    let alone = |f: usize, k: usize| { let (a, b) = mk(k); catch(|| frun(f, &a, &b, k)).ok() };
    let (w0, w1) = (alone(f.0, k.0), alone(f.1, k.1));
    let (Some(w0), Some(w1)) = (w0, w1) else { return Ok(()) };
    let want = [w0, w1];
    type Got = Vec<Option<Vec<(Vec<usize>, Vec<u32>)>>>;
    let got: Arc<Mutex<Got>> = Arc::new(Mutex::new(Vec::new()));
    let make = || {
        got.lock().unwrap().clear();
        got.lock().unwrap().resize(2, None);
        let (a0, b0) = mk(k.0);
        let (a1, b1) = if k.0 == k.1 { (a0.clone(), b0.clone()) } else { mk(k.1) };
        [(f.0, a0, b0, k.0), (f.1, a1, b1, k.1)].into_iter().enumerate().map(|(i, (f, a, b, k))| {
            let got = got.clone();
            Box::new(move || {
                let r = frun(f, &a, &b, k);
                drop((a, b));
                let _g = no_step();
                got.lock().unwrap()[i] = Some(r);
                drop(got);
            }) as Body
        }).collect::<Vec<Body>>()
    };
    let x = explore_step(1, u64::MAX, Some(occ), make, |_| {
        let g = got.lock().unwrap();
        for i in 0..2 {
            if g[i].as_ref() != Some(&want[i]) { return Err(format!("thread {i} got {:?}, alone it gets {:?}", g[i], want[i])); }
        }
        Ok(())
    })?;
    c.ticks(x.executions);
    c.outcome(&x.executions);
    c.state(&(f, k));
    Ok(())
}

fn main() {
    run("C03", |c| {
        // operation schedules: switches at every callback, clone and
        // arithmetic step of the elements
        for o1 in 0..OPS.len() {
            for o2 in 0..OPS.len() {
                let some = o1 == o2 || SHARED.contains(&OPS[o2].0);
                if c.quick() && !some { continue; }
                for k in 0..3 {
                    if c.quick() && o1 != o2 && k == 2 { continue; }
                    let bound = if o1 == o2 { c.pick(2, 3) } else { c.pick(1, 2) };
                    c.case("operations", || format!("{} | {} operands {k}, {bound} preemptions", OPS[o1].0, OPS[o2].0), |c| ops_case(c, &[o1, o2], k, bound));
                }
            }
        }
        for o in 0..OPS.len() {
            for k in 0..2 {
                c.case("three threads", || format!("{} in three threads, operands {k}", OPS[o].0), |c| ops_case(c, &[o, o, o], k, 1));
            }
        }

        // instruction schedules of sharing and releasing
        for a in ACTS {
            for b in ACTS {
                let bound = c.pick(1, 2);
                c.case("sharing", || format!("{a:?} | {b:?}, {bound} preemptions"), |c| steps_case(c, &[a, b], bound, c.pick(2, 3)));
            }
        }
        for a in [Act::Drop, Act::CloneDrop, Act::CloneKeep] {
            for b in [Act::Drop, Act::CloneDrop, Act::View] {
                for d in [Act::Drop, Act::Slice] {
                    c.case("sharing 3", || format!("{a:?} | {b:?} | {d:?}"), |c| steps_case(c, &[a, b, d], 1, c.pick(1, 2)));
                }
            }
        }
        for (a, b) in [(Act::Drop, Act::Drop), (Act::Drop, Act::CloneDrop), (Act::CloneDrop, Act::CloneDrop)] {
            c.case("sharing deep", || format!("{a:?} | {b:?}, 2 preemptions"), |c| steps_case(c, &[a, b], c.pick(2, 3), 1));
        }

        // instruction schedules of whole numeric operations (in the quick tier
        // in one build only)
        if c.quick() && !cfg!(debug_assertions) { return; }
        for f in 0..FOPS.len() {
            for k in 0..FCFG.len() {
                if c.quick() && k >= 1 { continue; }
                c.case("numeric", || format!("{} | same on shared operands, configuration {k}", FOPS[f].0), |c| float_case(c, (f, f), (k, k), c.pick(1, 2)));
            }
            for (k, l) in [(3, 0), (2, 0), (1, 4)] {
                if c.quick() && k != 3 { continue; }
                c.case("numeric", || format!("{} | same with configurations {k} {l}", FOPS[f].0), |c| float_case(c, (f, f), (k, l), c.pick(1, 2)));
            }
        }
    });
}
