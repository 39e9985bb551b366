//! C01: every element dropped exactly once, all storage returned.
use essay_tensor::tensor::Tensor;
use mc::fops::{Args, FOPS};
use mc::gens::*;
use mc::ops::{shot, OPS, T};
use mc::track::{Tk, Tr};
use mc::*;

#[global_allocator]
static A: calloc::Checking = calloc::Checking;

const SHAPES: &[&[usize]] = &[
    &[0], &[1], &[2], &[3], &[5], &[1, 1], &[2, 2], &[2, 3], &[3, 1], &[1, 4], &[2, 2, 2], &[1, 3, 2], &[2, 1, 2, 2], &[], &[2, 0], &[1, 1, 2, 1, 2],
];

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum B {
    Same,
    CloneOfA,
    ViewOfA,
    Row,
    Scalar,
}
const BS: [B; 5] = [B::Same, B::CloneOfA, B::ViewOfA, B::Row, B::Scalar];

fn make_b(a: &T, dims: &[usize], b: B, prov: Prov) -> T {
    match b {
        B::Same => build(&M::<Tr>::seq(dims, 100), prov),
        B::CloneOfA => a.clone(),
        B::ViewOfA => a.subslice_flat(0, a.size(), a.shape()),
        B::Row => build(&M::<Tr>::seq(&dims[dims.len().saturating_sub(1)..], 100), prov),
        B::Scalar => build(&M::<Tr>::seq(&[], 100), prov),
    }
}

/// All orders for up to four tensors, otherwise forward, reverse and rotations.
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n <= 4 {
        let mut out = vec![vec![]];
        for k in 0..n {
            let mut next = Vec::new();
            for o in &out {
                for at in 0..=k {
                    let mut p: Vec<usize> = o.clone();
                    p.insert(at, k);
                    next.push(p);
                }
            }
            out = next;
        }
        return out;
    }
    let f: Vec<usize> = (0..n).collect();
    let mut out = vec![f.clone(), f.iter().rev().copied().collect()];
    for r in [1, 2, n / 2, n - 1] {
        let mut v = f.clone();
        v.rotate_left(r);
        out.push(v);
    }
    out
}

/// Drops the tensors in the given order, reading all others after each drop.
fn drop_all(c: &mut Ctx, mut pool: Vec<Option<T>>, order: &[usize]) -> R {
    let want: Vec<_> = pool.iter().map(|t| t.as_ref().map(shot)).collect();
    for &k in order {
        pool[k] = None;
        c.tick();
        for (i, t) in pool.iter().enumerate() {
            if let Some(t) = t {
                let got = shot(t);
                if Some(&got) != want[i].as_ref() {
                    return Err(format!("after dropping tensor {k}, tensor {i} shows {got:?} instead of {:?}", want[i]));
                }
            }
        }
        track::check()?;
    }
    Ok(())
}

fn end(base: i64, panicked: bool) -> R {
    track::check()?;
    calloc::check()?;
    if !panicked {
        if track::live() != 0 {
            return Err(format!("{} elements still alive after every tensor is gone", track::live()));
        }
        let n = calloc::blocks() - base;
        if n != 0 {
            return Err(format!("{n} blocks more than before after every tensor is gone"));
        }
    }
    Ok(())
}

/// One run; the number of tensors involved, or None when the call was refused.
fn op_run(c: &mut Ctx, op: usize, dims: &[usize], pa: Prov, pb: Prov, b: B, order: Option<&[usize]>) -> Result<Option<usize>, String> {
    let ta = build(&M::<Tr>::seq(dims, 1), pa);
    let tb = make_b(&ta, dims, b, pb);
    let before = (shot(&ta), shot(&tb));
    match catch(|| OPS[op].1(&ta, &tb)) {
        Ok(v) => {
            if (shot(&ta), shot(&tb)) != before {
                return Err("an operand changed".into());
            }
            let mut pool: Vec<Option<T>> = vec![Some(ta), Some(tb)];
            pool.extend(v.into_iter().map(Some));
            let n = pool.len();
            if let Some(order) = order {
                drop_all(c, pool, order)?;
            }
            Ok(Some(n))
        }
        Err(_) => Ok(None),
    }
}

fn op_case(c: &mut Ctx, op: usize, dims: &[usize], pa: Prov, pb: Prov, b: B, all: bool) -> R {
    track::reset();
    let n = op_run(c, op, dims, pa, pb, b, None)?;
    c.tick();
    c.state(&(OPS[op].0, dims, pa, b));
    c.outcome(&(OPS[op].0, n));
    let Some(n) = n else {
        track::check()?;
        return calloc::check();
    };
    let mut list = orders(n);
    if !all && list.len() > 6 {
        let n = list.len();
        list = vec![list[0].clone(), list[n - 1].clone(), list[n / 2].clone()];
    }
    for order in &list {
        track::reset();
        let base = calloc::reset();
        op_run(c, op, dims, pa, pb, b, Some(order)).and_then(|_| end(base, false)).map_err(|e| format!("drop order {order:?}: {e}"))?;
    }
    Ok(())
}

/// op1, then op2 on a result, dropping at every stage.
fn pair_case(c: &mut Ctx, o1: usize, o2: usize, dims: &[usize], pa: Prov) -> R {
    for mode in 0..4 {
        track::reset();
        let base = calloc::reset();
        let mut panicked = false;
        let mut r = Ok(());
        {
            let a = build(&M::<Tr>::seq(dims, 1), pa);
            let b = build(&M::<Tr>::seq(dims, 100), Prov::Own);
            c.tick();
            match catch(|| OPS[o1].1(&a, &b)) {
                Err(_) => panicked = true,
                Ok(mut v) => {
                    if v.is_empty() {
                        return Ok(());
                    }
                    let x = v.remove(if mode % 2 == 0 { 0 } else { v.len() - 1 });
                    let keep = if mode < 2 { v.clear(); drop(a); None } else { Some(a) };
                    let want = shot(&x);
                    c.tick();
                    let other = if mode % 2 == 0 { &b } else { keep.as_ref().unwrap_or(&x) };
                    match catch(|| OPS[o2].1(&x, other)) {
                        Err(_) => panicked = true,
                        Ok(w) => {
                            if shot(&x) != want {
                                r = Err("the operand of the second operation changed".to_string());
                            }
                            let mut pool: Vec<Option<T>> = vec![Some(x), Some(b), keep];
                            pool.extend(w.into_iter().map(Some));
                            pool.extend(v.drain(..).map(Some));
                            let n = pool.len();
                            let order: Vec<usize> = if mode % 2 == 0 { (0..n).collect() } else { (0..n).rev().collect() };
                            r = r.and_then(|_| drop_all(c, pool, &order));
                        }
                    }
                }
            }
        }
        r.and_then(|_| end(base, panicked)).map_err(|e| format!("mode {mode}: {e}"))?;
    }
    Ok(())
}

/// Histories over a small pool: actions that create, share, consume or drop.
const ACTS: usize = 13;

fn act(pool: &mut Vec<T>, act: usize, k: usize, l: usize) -> bool {
    let n = pool.len();
    if act == 0 {
        if k > 1 || n >= 4 || l != 0 { return false; }
        pool.push(if k == 0 { build(&M::<Tr>::seq(&[2, 2], 1), Prov::Own) } else { build(&M::<Tr>::seq(&[4], 50), Prov::Nested) });
        return true;
    }
    if k >= n { return false; }
    let binary = act >= 11;
    if (!binary && l != 0) || (binary && l >= n) { return false; }
    let grows = !(7..=10).contains(&act);
    if grows && n >= 4 { return false; }
    match act {
        1 => pool.push(pool[k].clone()),
        2 => { let t = pool[k].slice(0); pool.push(t); }
        3 => { let d = pool[k].dim(0); let t = pool[k].subslice(d / 2, d - d / 2); pool.push(t); }
        4 => { let s = pool[k].size(); let t = pool[k].subslice_flat(s / 2, s - s / 2, [s - s / 2]); pool.push(t); }
        5 => { let t = pool[k].map(|v| Tr::new(v.get() + 1)); pool.push(t); }
        6 => { let mut v = pool[k].split(1usize); v.truncate(1); pool.extend(v); }
        7 => { let t = pool.swap_remove(k); let s = t.size(); pool.push(t.reshape([s, 1])); }
        8 => { let t = pool.swap_remove(k); pool.push(t.flatten()); }
        9 => { let t = pool.swap_remove(k); pool.push(t.expand_dims(0).squeeze_axis(0)); }
        10 => { pool.remove(k); }
        11 => { let t = Tensor::from_merge(&[pool[k].clone(), pool[l].clone()], [pool[k].size() + pool[l].size()]); pool.push(t); }
        12 => { let (a, b) = (pool[k].clone().flatten(), pool[l].clone().flatten()); let t = a.append(b); pool.push(t); }
        _ => unreachable!(),
    }
    true
}

type Step = (usize, usize, usize);

/// The same actions on lists of values.
fn act_model(pool: &mut Vec<(Vec<usize>, Vec<i64>)>, (a, k, l): Step) {
    match a {
        0 => pool.push(if k == 0 { (vec![2, 2], (1..5).collect()) } else { (vec![4], (50..54).collect()) }),
        1 => pool.push(pool[k].clone()),
        2 => { let (d, v) = pool[k].clone(); let n = v.len() / d[0]; pool.push((d[1..].to_vec(), v[..n].to_vec())); }
        3 => { let (mut d, v) = pool[k].clone(); let n = v.len() / d[0]; let s = d[0] / 2; let v = v[s * n..].to_vec(); d[0] -= s; pool.push((d, v)); }
        4 => { let v = &pool[k].1; let v = v[v.len() / 2..].to_vec(); pool.push((vec![v.len()], v)); }
        5 => { let (d, v) = pool[k].clone(); pool.push((d, v.iter().map(|x| x + 1).collect())); }
        7 => { let (_, v) = pool.swap_remove(k); pool.push((vec![v.len(), 1], v)); }
        8 => { let (_, v) = pool.swap_remove(k); pool.push((vec![v.len()], v)); }
        9 => { let (d, v) = pool.swap_remove(k); pool.push((d, v)); }
        10 => { pool.remove(k); }
        11 | 12 => { let mut v = pool[k].1.clone(); v.extend(&pool[l].1); pool.push((vec![v.len()], v)); }
        _ => unreachable!(),
    }
}

fn applicable(n: usize, dims: &[Vec<usize>], (a, k, l): Step) -> bool {
    if a == 0 {
        return k <= 1 && l == 0 && n < 4;
    }
    if k >= n { return false; }
    let binary = a >= 11;
    if (!binary && l != 0) || l >= n { return false; }
    if !(7..=10).contains(&a) && n >= 4 { return false; }
    let d = &dims[k];
    match a {
        2 | 3 => !d.is_empty(),
        6 => false,
        9 => !d.is_empty() && d.len() < 6,
        7 | 8 => true,
        _ => true,
    }
}

fn histories(depth: usize) -> Vec<Vec<Step>> {
    // every applicable sequence, starting with a new tensor
    let mut out = Vec::new();
    fn go(depth: usize, seq: &mut Vec<Step>, pool: &Vec<(Vec<usize>, Vec<i64>)>, out: &mut Vec<Vec<Step>>) {
        if depth == 0 {
            out.push(seq.clone());
            return;
        }
        let dims: Vec<Vec<usize>> = pool.iter().map(|p| p.0.clone()).collect();
        for a in 0..ACTS {
            for k in 0..4 {
                for l in 0..4 {
                    let s = (a, k, l);
                    if !applicable(pool.len(), &dims, s) { continue; }
                    let mut p = pool.clone();
                    act_model(&mut p, s);
                    seq.push(s);
                    go(depth - 1, seq, &p, out);
                    seq.pop();
                }
            }
        }
    }
    for k in 0..2 {
        let mut p = Vec::new();
        act_model(&mut p, (0, k, 0));
        go(depth - 1, &mut vec![(0, k, 0)], &p, &mut out);
    }
    out
}

fn history_case(c: &mut Ctx, seq: &[Step]) -> R {
    track::reset();
    let base = calloc::reset();
    {
        let mut pool: Vec<T> = Vec::with_capacity(8);
        let mut model = Vec::new();
        for (i, s) in seq.iter().enumerate() {
            act_model(&mut model, *s);
            let r = catch(|| act(&mut pool, s.0, s.1, s.2)).map_err(|e| format!("step {i} {s:?}: panic {e}"))?;
            c.tick();
            if !r { return Err(format!("harness: step {i} {s:?} was not applicable")); }
            if pool.len() != model.len() { return Err("harness: pool sizes differ".into()); }
            for (j, (t, m)) in pool.iter().zip(&model).enumerate() {
                let got = shot(t);
                if &got != m { return Err(format!("after step {i} {s:?} tensor {j} shows {got:?}, expected {m:?}")); }
            }
            track::check()?;
        }
        c.state(&model);
    }
    end(base, false)
}

fn layout_cases<E: Elem>(c: &mut Ctx, name: &str) {
    for dims in SHAPES {
        for prov in ALL_PROV {
            for (opname, g) in gens::<E>() {
                c.case("element layouts", || format!("{name} {opname} {dims:?} {prov:?}"), |c| {
                    for rev in [false, true] {
                        track::reset();
                        let base = calloc::reset();
                        let mut panicked = false;
                        {
                            let m = M::<E>::seq(dims, 1);
                            let t = build(&m, prov);
                            c.tick();
                            match catch(|| g(&t)) {
                                Ok(r) => {
                                    let mut pool = vec![t];
                                    pool.extend(r);
                                    let copies: Vec<Vec<E>> = pool.iter().map(|p| p.to_vec()).collect();
                                    while !pool.is_empty() {
                                        let k = if rev { 0 } else { pool.len() - 1 };
                                        pool.remove(k);
                                        let off = if rev { copies.len() - pool.len() } else { 0 };
                                        for (i, p) in pool.iter().enumerate() {
                                            if p.as_slice() != copies[i + off].as_slice() { return Err(format!("contents changed when another tensor was dropped: {:?} / {:?}", p, copies[i + off])); }
                                        }
                                    }
                                }
                                Err(_) => panicked = true,
                            }
                        }
                        c.state(&(name, opname, dims));
                        end(base, panicked)?;
                        if !panicked && track::zlive() != 0 { return Err(format!("{} zero-sized elements too many alive", track::zlive())); }
                    }
                    Ok(())
                });
            }
        }
    }
}

fn main() {
    run("C01", |c| {
        c.state(&"");
        c.outcome(&"");
        // warm up lazily created process state
        for f in FOPS {
            let a: Tensor = Tensor::from_vec((0..6).map(|i| i as f32).collect::<Vec<_>>(), [2, 3]);
            let _ = catch(|| (f.2)(&Args { a: &a, b: &a, x: 0, n: 2, m: 1 }));
        }

        for op in 0..OPS.len() {
            for dims in SHAPES {
                for pa in ALL_PROV {
                    for b in BS {
                        let pb = if pa == Prov::Own { Prov::Mid } else { Prov::Own };
                        let all = FEW_PROV.contains(&pa) || !c.quick();
                        c.case("one operation", || format!("{} {dims:?} {pa:?} with {b:?}", OPS[op].0), |c| op_case(c, op, dims, pa, pb, b, all));
                    }
                }
            }
        }

        let shapes: &[&[usize]] = c.pick(&[&[2, 2], &[3], &[2, 1, 2]], &[&[2, 2], &[3], &[1], &[2, 3], &[2, 1, 2], &[2, 2, 2]]);
        let provs: &[Prov] = c.pick(&[Prov::Own, Prov::Outer], &[Prov::Own, Prov::Mid, Prov::Outer, Prov::Slice]);
        for o1 in 0..OPS.len() {
            for o2 in 0..OPS.len() {
                for dims in shapes {
                    for &pa in provs {
                        c.case("two operations", || format!("{} then {} on {dims:?} {pa:?}", OPS[o1].0, OPS[o2].0), |c| {
                            c.state(&(o1, o2, dims, pa));
                            pair_case(c, o1, o2, dims, pa)
                        });
                    }
                }
            }
        }

        for d in 1..=c.pick(4, 5) {
            for seq in histories(d) {
                c.case("histories", || format!("{seq:?}"), |c| history_case(c, &seq));
            }
        }

        layout_cases::<Al>(c, "64-byte aligned");
        layout_cases::<Odd>(c, "3-byte");
        layout_cases::<Wide>(c, "32-byte");
        layout_cases::<Owned>(c, "owning");
        layout_cases::<Unit>(c, "zero-sized");
        layout_cases::<Tk<u16>>(c, "tracked 2-byte");
        layout_cases::<Tk<u32>>(c, "tracked 4-byte");
        layout_cases::<Tk<u64>>(c, "tracked 8-byte");
        layout_cases::<Tk<u128>>(c, "tracked 16-byte");
        layout_cases::<u8>(c, "u8");
        layout_cases::<f64>(c, "f64");

        // numeric operations: only storage can leak
        for (name, uses, f) in FOPS {
            for dims in SHAPES {
                for bd in SHAPES {
                    if !uses.contains('b') && bd != dims { continue; }
                    for prov in [Prov::Own, Prov::OuterTail] {
                        c.case("numeric operations", || format!("{name} {dims:?} {prov:?} with {bd:?}"), |c| {
                            for (x, n, m) in [(0, 2, 1), (-1, 1, 2), (1, 0, 3), (0, 3, 2)] {
                                track::reset();
                                let base = calloc::reset();
                                let mut panicked = false;
                                {
                                    let a = build(&M::<f32>::seq(dims, 1), prov);
                                    let b = build(&M::<f32>::seq(bd, 3), prov);
                                    c.tick();
                                    match catch(|| f(&Args { a: &a, b: &b, x, n, m })) {
                                        Ok(r) => { drop(a); for t in &r { std::hint::black_box(t.iter().map(|v| v.to_bits() as u64).sum::<u64>()); } }
                                        Err(_) => panicked = true,
                                    }
                                }
                                c.state(&(name, dims, bd));
                                end(base, panicked).map_err(|e| format!("axis {x}, counts {n} {m}: {e}"))?;
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    });
}
