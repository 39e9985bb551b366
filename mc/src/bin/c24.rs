//! C24: seeding of the per-thread generators under all interleavings.
use std::sync::{Arc, Mutex};

use essay_tensor::init::random_normal;
use essay_tensor::random::{random_seed, Rand32, Rand64};
use mc::sched::{explore, explore_step, yield_point, Body};
use mc::*;

/// One generator step, written down independently.
fn step(state: &mut u128) -> u64 {
    *state = state.wrapping_mul(0xACAEAEFB4BF4A6A78B6E278B66409E7D).wrapping_add(0x351402A3544A25016AEE39FBBADBB38D);
    let r = (*state >> 32) as u64;
    (r ^ (r >> 32)).wrapping_mul(0xA18E4C689403AE2D)
}

fn next_seed(seed: u64) -> u64 {
    step(&mut (seed as u128))
}

#[derive(Clone, Debug, Hash, PartialEq)]
enum Op {
    /// a draw of the thread's own generator (the first one seeds it)
    Draw,
    /// a tensor drawn from an unseeded option
    Tensor,
    Seed(u64),
}
use Op::*;

/// What one thread observed: the draws in order.
type Log = Vec<Vec<u64>>;

fn body(ops: Vec<Op>, me: usize, log: Arc<Mutex<Log>>, points: bool) -> Body {
    Box::new(move || {
        let mut out = [0u64; 8];
        let mut n = 0;
        for op in &ops {
            if points {
                yield_point();
            }
            match op {
                Draw => {
                    out[n] = Rand64::new().0 as u64;
                    n += 1;
                }
                Tensor => {
                    out[n] = Rand32::new().0;
                    n += 1;
                }
                Seed(s) => random_seed(*s),
            }
        }
        let _g = mc::sched::no_step();
        log.lock().unwrap()[me] = out[..n].to_vec();
    })
}

/// The first draw of a thread and its seeding of the global generator are the
/// atomic steps; is there an order of them that explains the logs?
fn explained(start: u64, threads: &[Vec<Op>], log: &Log) -> bool {
    // atomic steps per thread: Seed(s), or Init (before the first draw)
    #[derive(Clone, Copy)]
    enum A { Seed(u64), Init }
    let steps: Vec<Vec<A>> = threads.iter().map(|t| {
        let mut v = Vec::new();
        let mut init = false;
        for op in t {
            match op {
                Seed(s) => v.push(A::Seed(*s)),
                _ if !init => { init = true; v.push(A::Init) }
                _ => {}
            }
        }
        v
    }).collect();
    /// The global seed, or (after a seed from the system) its successor.
    #[derive(Clone, Copy)]
    enum G { Seed(u64), Next(u64) }
    fn go(glob: G, pos: &mut Vec<usize>, steps: &[Vec<A>], log: &Log) -> bool {
        let mut done = true;
        for t in 0..steps.len() {
            if pos[t] == steps[t].len() { continue; }
            done = false;
            let next = match (steps[t][pos[t]], glob) {
                (A::Seed(s), _) => Some(G::Seed(s)),
                // the seed cannot be told from the draws, but the first draw
                // of a seed is the next seed
                (A::Init, G::Seed(0)) => Some(G::Next(log[t][0])),
                (A::Init, g) => {
                    let seed = match g { G::Seed(s) => next_seed(s), G::Next(s) => s };
                    let mut s = seed as u128;
                    if log[t].iter().all(|v| *v == step(&mut s)) { Some(G::Seed(seed)) } else { None }
                }
            };
            if let Some(g) = next {
                pos[t] += 1;
                if go(g, pos, steps, log) { return true; }
                pos[t] -= 1;
            }
        }
        done
    }
    go(G::Seed(start), &mut vec![0; steps.len()], &steps, log)
}

/// Unseeded start: the first draws must form a chain, each the successor of
/// the one before, since the next seed is the first draw of the current one.
fn chained(log: &Log) -> R {
    let mut firsts: Vec<u64> = log.iter().filter_map(|l| l.first().cloned()).collect();
    firsts.sort();
    let n = firsts.len();
    for i in 0..n {
        let mut chain = vec![firsts[i]];
        while chain.len() < n {
            chain.push(next_seed(*chain.last().unwrap()));
        }
        let mut a = chain.clone();
        a.sort();
        if a == firsts {
            return Ok(());
        }
    }
    Err(format!("the first draws {firsts:x?} of unseeded threads are not successive"))
}

fn check(start: u64, threads: &[Vec<Op>], log: &Log) -> R {
    let seeded = threads.iter().flatten().any(|o| matches!(o, Seed(_)));
    if start == 0 && !seeded {
        return chained(log);
    }
    if !explained(start, threads, log) {
        return Err(format!("no order of the seedings and first draws explains {log:x?} (seed {start}, threads {threads:?})"));
    }
    if !seeded {
        let mut all: Vec<u64> = log.iter().flatten().cloned().collect();
        let n = all.len();
        all.sort();
        all.dedup();
        if all.len() != n && threads.iter().all(|t| t.len() == 1) {
            return Err(format!("two threads share a stream: {log:x?}"));
        }
    }
    Ok(())
}

fn scenario(c: &mut Ctx, start: u64, threads: &[Vec<Op>], bound: usize, step: Option<u8>, cap: u64) -> R {
    let log: Arc<Mutex<Log>> = Arc::new(Mutex::new(vec![vec![]; threads.len()]));
    let l2 = log.clone();
    let l3 = log.clone();
    let t2 = threads.to_vec();
    let outcomes = std::cell::RefCell::new(std::collections::HashSet::new());
    let make = move || {
        random_seed(start);
        *l2.lock().unwrap() = vec![vec![]; t2.len()];
        t2.iter().enumerate().map(|(i, ops)| body(ops.clone(), i, l2.clone(), step.is_none())).collect()
    };
    let chk = |_: &mc::sched::Execution| {
        let log = l3.lock().unwrap().clone();
        // which thread got which stream
        let mut order: Vec<usize> = (0..log.len()).collect();
        let mut chain = vec![];
        let mut s = start;
        for _ in 0..log.len() + 1 { s = next_seed(s); chain.push(next_seed(s)); }
        order.sort_by_key(|i| chain.iter().position(|x| log[*i].first() == Some(x)));
        outcomes.borrow_mut().insert(hash_of(&order));
        check(start, threads, &log)
    };
    let r = if step.is_some() { explore_step(bound, cap, step, make, chk) } else { explore(bound, cap, make, chk) };
    for o in outcomes.borrow().iter() {
        c.outcome(&(start != 0, threads.len(), o));
    }
    let e = r?;
    if e.capped {
        return Err(format!("harness: more than {cap} schedules"));
    }
    if std::env::var("MC_TRACE").is_ok() { eprintln!("{e:?}"); }
    c.ticks(e.points);
    for k in 0..e.executions {
        c.state(&(start, threads, bound, step, k));
    }
    Ok(())
}

/// The model: all sequential histories, executed on real fresh threads.
fn sequential(c: &mut Ctx, start: u64, hist: &[(usize, Op)]) -> R {
    // thread ids 0..3 stay alive during the history
    use std::sync::mpsc::channel;
    random_seed(start);
    c.state(&(start, hist));
    c.ticks(hist.len() as u64);
    let mut glob = start;
    let mut st: Vec<Option<u128>> = vec![None; 3];
    let mut workers: Vec<Option<(std::sync::mpsc::Sender<Op>, std::sync::mpsc::Receiver<u64>)>> = vec![None, None, None];
    let mut hs = Vec::new();
    let mut res = Ok(());
    for (k, (t, op)) in hist.iter().enumerate() {
        if workers[*t].is_none() {
            let (a, b) = channel::<Op>();
            let (x, y) = channel::<u64>();
            hs.push(std::thread::spawn(move || {
                while let Ok(op) = b.recv() {
                    let v = match op {
                        Draw => Rand64::new().0 as u64,
                        Op::Tensor => Rand32::new().0,
                        Seed(s) => { random_seed(s); 0 }
                    };
                    if x.send(v).is_err() { break; }
                }
            }));
            workers[*t] = Some((a, y));
        }
        let w = workers[*t].as_ref().unwrap();
        w.0.send(op.clone()).unwrap();
        let got = w.1.recv().unwrap();
        match op {
            Seed(s) => glob = *s,
            _ => {
                if st[*t].is_none() {
                    glob = next_seed(glob);
                    st[*t] = Some(glob as u128);
                }
                let s = st[*t].as_mut().unwrap();
                let want = step(s);
                if got != want {
                    res = Err(format!("step {k} of {hist:?} from seed {start}: drew {got:#x}, expected {want:#x}"));
                    break;
                }
            }
        }
    }
    drop(workers);
    for h in hs { let _ = h.join(); }
    res
}

fn main() {
    run("C24", |c| {
        let _ = random_normal([1], None);
        // every sequential history over three threads
        let ops: Vec<(usize, Op)> = (0..3).flat_map(|t| [(t, Draw), (t, Op::Tensor), (t, Seed(77))]).collect();
        for n in 1..=c.pick(4, 5) {
            for l in lists(n, &(0..ops.len()).collect::<Vec<_>>()) {
                let h: Vec<(usize, Op)> = l.iter().map(|i| ops[*i].clone()).collect();
                c.case("sequential", || format!("{h:?}"), |c| sequential(c, 1, &h));
            }
        }
        for start in [2u64, 42, u64::MAX, 1 << 63, 0xdead_beef] {
            for l in lists(3, &(0..ops.len()).collect::<Vec<_>>()) {
                let h: Vec<(usize, Op)> = l.iter().map(|i| ops[*i].clone()).collect();
                c.case("sequential", || format!("{start} {h:?}"), |c| sequential(c, start, &h));
            }
        }
        // instruction-level interleavings
        let d = |n: usize| vec![Draw; n];
        let step1: Vec<(Vec<Vec<Op>>, u64)> = vec![
            (vec![d(1), d(1)], 1), (vec![d(1), d(1)], u64::MAX), (vec![d(1), d(1)], 0), (vec![d(2), d(2)], 5), (vec![d(1), d(1), d(1)], 9),
            (vec![d(1), vec![Seed(3)]], 1), (vec![d(1), vec![Seed(3), Draw]], 1), (vec![d(2), vec![Draw, Seed(3)]], 1), (vec![vec![Seed(8), Draw], vec![Seed(9), Draw]], 1),
            (vec![vec![Op::Tensor, Draw], d(1)], 11), (vec![d(1), vec![Seed(0), Draw]], 1).clone(),
            (vec![d(1), vec![Seed(3), Seed(1)]], 1),
        ];
        for (t, s) in step1 {
            // one preemption anywhere
            c.case("stepped 1", || format!("{t:?} from {s}"), |c| scenario(c, s, &t, 1, Some(2), 200_000));
        }
        for (t, s) in [(vec![d(1), d(1)], 1u64), (vec![d(1), vec![Seed(3)]], 1), (vec![d(1), vec![Seed(3), Draw]], 7)] {
            c.case("stepped 2", || format!("{t:?} from {s}"), |c| scenario(c, s, &t, 2, Some(1), 2_000_000));
        }
        if !c.quick() {
            c.case("stepped 3", || "two first draws".into(), |c| scenario(c, 1, &[d(1), d(1)], 3, Some(1), 5_000_000));
            c.case("stepped 2 three threads", || "three first draws".into(), |c| scenario(c, 1, &[d(1), d(1), d(1)], 2, Some(1), 5_000_000));
            c.case("stepped 2 draws", || "two draws each".into(), |c| scenario(c, 1, &[d(2), d(2)], 2, Some(2), 5_000_000));
        }
        // operation-level interleavings, more threads
        for (t, s) in [
            (vec![d(2), d(2), d(2)], 4u64), (vec![d(2), vec![Seed(3), Draw], d(1)], 4), (vec![d(3), vec![Seed(5), Seed(6)], vec![Draw, Op::Tensor]], 4),
            (vec![d(1), d(1), d(1), d(1)], 4), (vec![d(2), d(2)], 0),
        ] {
            c.case("operations", || format!("{t:?} from {s}"), |c| scenario(c, s, &t, 6, None, 500_000));
        }
    });
}
