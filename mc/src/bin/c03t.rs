//! C03, data races: operation-level schedules under the happens-before
//! monitor of ThreadSanitizer. The token between the threads is passed through
//! relaxed atomics, which order nothing, so each schedule is forced without
//! adding the synchronisation that would hide a missing one.
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;

use essay_tensor::tensor::Tensor;
use mc::fops::{Args, F, FOPS};
use mc::gens::{gens, Owned};
use mc::*;

fn wait_for(turn: &AtomicUsize, order: &[u8], me: u8, step: &mut usize) {
    // the positions of `me` in the order are its steps
    let mut k = 0;
    let at = order.iter().position(|o| { if *o == me { k += 1; } k == *step + 1 }).unwrap();
    let mut spins = 0u32;
    while turn.load(Relaxed) != at {
        spins += 1;
        if spins > 200 { std::thread::yield_now(); } else { std::hint::spin_loop(); }
    }
    *step += 1;
}

fn done(turn: &AtomicUsize) {
    let n = turn.load(Relaxed);
    turn.store(n + 1, Relaxed);
}

/// All merges of `n` threads with `k` steps each.
fn merges(n: u8, k: usize) -> Vec<Vec<u8>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left.iter().all(|l| *l == 0) { out.push(cur.clone()); return; }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i as u8);
                go(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = Vec::new();
    go(&mut vec![k; n as usize], &mut vec![], &mut out);
    out
}

/// Steps of one thread: the operation, dropping the operands, reading and
/// dropping the result.
fn threads<S: Send + 'static, Q: 'static>(order: &Arc<Vec<u8>>, subj: Vec<S>, op: fn(&S, usize) -> Q, read: fn(&Q)) -> bool {
    let turn = Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = subj.into_iter().enumerate().map(|(i, s)| {
        let (turn, order) = (turn.clone(), order.clone());
        std::thread::spawn(move || {
            let me = i as u8;
            let mut step = 0;
            wait_for(&turn, &order, me, &mut step);
            let r = catch(|| op(&s, i)).ok();
            done(&turn);
            wait_for(&turn, &order, me, &mut step);
            drop(s);
            done(&turn);
            wait_for(&turn, &order, me, &mut step);
            if let Some(r) = &r { read(r); }
            let ok = r.is_some();
            drop(r);
            done(&turn);
            ok
        })
    }).collect();
    hs.into_iter().fold(true, |ok, h| h.join().unwrap_or(false) && ok)
}

struct FS(usize, F, F, usize);
const CFG: &[(&[usize], &[usize], isize, usize, usize)] = &[(&[2, 3], &[2, 3], 0, 2, 1), (&[3, 2], &[2, 3], 1, 1, 1), (&[6], &[6], 0, 2, 3), (&[2, 2, 2], &[2, 2, 2], -1, 2, 2)];

fn fop(s: &FS, _: usize) -> Vec<F> {
    let g = CFG[s.3];
    FOPS[s.0].2(&Args { a: &s.1, b: &s.2, x: g.2, n: g.3, m: g.4 })
}

fn fread(v: &Vec<F>) {
    for t in v { std::hint::black_box(t.iter().map(|x| x.to_bits() as u64).sum::<u64>()); }
}

struct GS(usize, Tensor<Owned>);

fn gop(s: &GS, _: usize) -> Vec<Tensor<Owned>> {
    gens::<Owned>()[s.0].1(&s.1)
}

fn gread(v: &Vec<Tensor<Owned>>) {
    for t in v { std::hint::black_box(t.iter().map(|x| x.0.len() + x.1.len()).sum::<usize>()); }
}

fn main() {
    run("C03", |c| {
        let two: Vec<Arc<Vec<u8>>> = merges(2, 3).into_iter().map(Arc::new).collect();
        let three: Vec<Arc<Vec<u8>>> = merges(3, 3).into_iter().map(Arc::new).collect();
        let common = ["map", "fold_axis", "normalize", "reduce_axis", "transpose", "split_axis", "matmul", "rfft_norm", "clone"];
        for f in 0..FOPS.len() {
            for g in 0..FOPS.len() {
                if f != g && c.quick() && !common.contains(&FOPS[g].0) { continue; }
                for k in 0..CFG.len() {
                    if c.quick() && f != g && k != 0 { continue; }
                    c.case("races numeric", || format!("{} | {} configuration {k}", FOPS[f].0, FOPS[g].0), |c| {
                        for order in &two {
                            let (d, e, ..) = CFG[k];
                            let (a, b) = (build(&M::<f32>::seq(d, 1), Prov::Own), build(&M::<f32>::seq(e, 5), Prov::Tail));
                            let subj = vec![FS(f, a.clone(), b.clone(), k), FS(g, a, b, k)];
                            c.ticks(2);
                            let ok = threads(order, subj, fop, fread);
                            c.outcome(&ok);
                        }
                        c.state(&(f, g, k));
                        Ok(())
                    });
                }
            }
        }
        let n = gens::<Owned>().len();
        for f in 0..n {
            for g in 0..n {
                if f != g && g > 3 && c.quick() { continue; }
                for (d, p) in [(&[2, 2][..], Prov::Own), (&[3], Prov::Nested)] {
                    c.case("races owning elements", || format!("{} | {} {d:?}", gens::<Owned>()[f].0, gens::<Owned>()[g].0), |c| {
                        for order in &two {
                            let a = build(&M::<Owned>::seq(d, 1), p);
                            c.ticks(2);
                            let ok = threads(order, vec![GS(f, a.clone()), GS(g, a)], gop, gread);
                            c.outcome(&ok);
                        }
                        c.state(&(f, g, d, 1));
                        Ok(())
                    });
                }
            }
        }
        // three threads releasing one storage; the thread that makes the last
        // release frees it
        for f in 0..n {
            if c.quick() && !["clone", "views", "map", "reshape"].contains(&gens::<Owned>()[f].0) { continue; }
            for (part, chunk) in three.chunks(210).enumerate() {
                c.case("races three threads", || format!("{} part {part}", gens::<Owned>()[f].0), |c| {
                    for order in chunk {
                        let a = build(&M::<Owned>::seq(&[2], 1), Prov::Own);
                        c.ticks(3);
                        threads(order, vec![GS(f, a.clone()), GS(f, a.clone()), GS(f, a)], gop, gread);
                    }
                    c.state(&(f, part));
                    Ok(())
                });
            }
        }
    });
}
