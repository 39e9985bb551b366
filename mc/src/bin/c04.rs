//! C04: a panic at every point where user code runs inside an operation.
use essay_tensor::tensor::Tensor;
use mc::gens::gens;
use mc::ops::{shot, HOSTS, OPS, T};
use mc::track::{Tr, Zs};
use mc::*;

#[global_allocator]
static A: calloc::Checking = calloc::Checking;

const SHAPES: &[&[usize]] = &[&[0], &[1], &[2], &[3], &[5], &[1, 1], &[2, 2], &[2, 3], &[3, 1], &[2, 2, 2], &[1, 3, 2], &[2, 1, 2, 2], &[]];

type Shot = Vec<(Vec<usize>, Vec<i64>)>;

fn run_op(f: &dyn Fn(&T, &T) -> Vec<T>, a: &T, b: &T) -> Result<Shot, String> {
    catch(|| f(a, b)).map(|v| v.iter().map(shot).collect())
}

/// Faults at every point of `f`.
fn faults(c: &mut Ctx, f: &dyn Fn(&T, &T) -> Vec<T>, dims: &[usize], pa: Prov, bk: usize, next: &dyn Fn(&T, &T) -> Vec<T>) -> R {
    track::reset();
    calloc::reset();
    let a = build(&M::<Tr>::seq(dims, 1), pa);
    let b = match bk {
        0 => build(&M::<Tr>::seq(dims, 100), Prov::Own),
        1 => a.clone(),
        2 => build(&M::<Tr>::seq(&dims[dims.len().saturating_sub(1)..], 100), Prov::Mid),
        _ => a.subslice_flat(0, a.size(), a.shape()),
    };
    let other = a.clone();
    let before = (shot(&a), shot(&b), shot(&other));
    let want_next = run_op(next, &a, &b).ok();
    track::reset_points();
    let want = run_op(f, &a, &b);
    let points = track::points();
    track::check()?;
    if want.is_err() && points == 0 {
        return Ok(()); // refused before any user code ran
    }
    if points > 500 {
        return Ok(()); // results of quadratic size: covered with small operands
    }
    for k in 0..points {
        track::arm(k as i64);
        let r = run_op(f, &a, &b);
        let fired = !track::armed();
        track::arm(-1);
        c.tick();
        let fail = |e: String| Err(format!("fault at point {k} of {points}: {e}"));
        match (&r, fired) {
            (Ok(_), true) => return fail("the panic did not reach the caller".into()),
            (Ok(v), false) if want.as_ref().ok() != Some(v) => return fail(format!("no fault was met and the result is {v:?}")),
            (Err(e), true) if !e.contains("injected fault") => return fail(format!("the caller got another panic: {e}")),
            _ => {}
        }
        if let Err(e) = track::check() { return fail(e); }
        if let Err(e) = calloc::check() { return fail(e); }
        if (shot(&a), shot(&b), shot(&other)) != before { return fail("an operand changed".into()); }
        if let Err(e) = track::check() { return fail(format!("reading the operands: {e}")); }
        // works as before
        let again = run_op(f, &a, &b);
        if again.as_ref().ok() != want.as_ref().ok() { return fail(format!("afterwards the operation gives {again:?} instead of {want:?}")); }
        if run_op(next, &a, &b).ok() != want_next { return fail("afterwards another operation gives another result".into()); }
        if let Err(e) = track::check() { return fail(format!("afterwards: {e}")); }
    }
    c.state(&(points, dims, pa, bk, want.as_ref().ok()));
    c.outcome(&points);
    drop((a, b, other));
    track::check()?;
    calloc::check()
}

fn main() {
    run("C04", |c| {
        for (o, (name, f)) in OPS.iter().enumerate() {
            for dims in SHAPES {
                for pa in [Prov::Own, Prov::Mid, Prov::Outer, Prov::Slice, Prov::Mapped] {
                    for bk in 0..4 {
                        if c.quick() && bk == 3 && pa != Prov::Own { continue; }
                        let next = OPS[(o * 7 + dims.len() + 3) % OPS.len()].1;
                        c.case("operations", || format!("{name} {dims:?} {pa:?}, b kind {bk}"), |c| faults(c, &|a, b| f(a, b), dims, pa, bk, &|a, b| next(a, b)));
                    }
                }
            }
        }
        for (name, g) in gens::<Tr>() {
            for dims in SHAPES {
                for pa in [Prov::Own, Prov::Mid] {
                    c.case("element clones", || format!("{name} {dims:?} {pa:?}"), |c| faults(c, &|a, _| g(a), dims, pa, 0, &|a, _| vec![a.map(|v| v.clone())]));
                }
            }
        }

        // longer operands: the fault late in the data
        for (name, f) in OPS {
            for dims in [&[40][..], &[8, 9], &[3, 4, 5]] {
                if c.quick() && dims.len() == 3 { continue; }
                c.case("long", || format!("{name} {dims:?}"), |c| faults(c, &|a, b| f(a, b), dims, Prov::Tail, 1, &|a, _| vec![a.clone()]));
            }
        }

        // a second fault after the first
        for (name, f) in OPS {
            c.case("two faults", || name.to_string(), |c| {
                for dims in [&[2][..], &[2, 2]] {
                    track::reset();
                    calloc::reset();
                    let a = build(&M::<Tr>::seq(dims, 1), Prov::Own);
                    let b = build(&M::<Tr>::seq(dims, 9), Prov::Own);
                    let before = (shot(&a), shot(&b));
                    track::reset_points();
                    let want = run_op(&|a, b| f(a, b), &a, &b).ok();
                    let n = track::points().min(c.pick(24, 60)) as i64;
                    for k in 0..n {
                        for l in 0..n {
                            for p in [k, l] {
                                track::arm(p);
                                let _ = run_op(&|a, b| f(a, b), &a, &b);
                                track::arm(-1);
                                c.tick();
                            }
                            track::check().map_err(|e| format!("faults at {k}, then {l} on {dims:?}: {e}"))?;
                            if (shot(&a), shot(&b)) != before { return Err(format!("faults at {k}, then {l}: an operand changed")); }
                        }
                        if run_op(&|a, b| f(a, b), &a, &b).ok() != want { return Err(format!("after faults at {k}: another result")); }
                    }
                    c.state(&(name, dims, n));
                    calloc::check()?;
                }
                Ok(())
            });
        }

        // a fault of an inner operation, caught inside the outer one's callback
        for (hn, h) in HOSTS {
            for (name, f) in OPS {
                c.case("nested", || format!("{name} inside {hn}"), |c| {
                    track::reset();
                    calloc::reset();
                    let a = build(&M::<Tr>::seq(&[2, 2], 1), Prov::Mid);
                    let x = build(&M::<Tr>::seq(&[2, 2], 5), Prov::Own);
                    let want = run_op(&|a, _| h(a, &mut || {}), &a, &a);
                    track::reset_points();
                    let _ = run_op(&|a, b| f(a, b), &x, &x);
                    let n = track::points() as i64;
                    for k in 0..n {
                        c.tick();
                        let got = run_op(&|a, _| h(a, &mut || {
                            track::arm(k);
                            let _ = catch(|| f(&x, &x));
                            track::arm(-1);
                        }), &a, &a);
                        if got.as_ref().ok() != want.as_ref().ok() { return Err(format!("inner fault at {k}: outer result {got:?} instead of {want:?}")); }
                        track::check().map_err(|e| format!("inner fault at {k}: {e}"))?;
                    }
                    calloc::check()
                });
            }
        }

        // the callback itself panics at its k-th call while holding results
        for (hn, h) in HOSTS {
            for dims in [&[1][..], &[3], &[2, 3], &[2, 2, 2]] {
                c.case("callbacks", || format!("{hn} {dims:?}"), |c| {
                    let mut total = 0;
                    {
                        let a = build(&M::<Tr>::seq(dims, 1), Prov::Own);
                        let _ = catch(|| h(&a, &mut || total += 1));
                    }
                    for k in 0..total {
                        track::reset();
                        calloc::reset();
                        let a = build(&M::<Tr>::seq(dims, 1), Prov::Outer);
                        let b = a.clone();
                        let before = shot(&a);
                        let mut n = 0;
                        c.tick();
                        let r = catch(|| h(&a, &mut || { n += 1; if n == k + 1 { panic!("callback {k}"); } }));
                        match r {
                            Ok(_) => return Err(format!("a panic in call {k} of {total} was swallowed")),
                            Err(e) if !e.contains("callback") => return Err(format!("another panic instead: {e}")),
                            _ => {}
                        }
                        if n != k + 1 { return Err(format!("the callback was called again after it panicked in call {k}")); }
                        track::check().map_err(|e| format!("call {k} of {total}: {e}"))?;
                        drop(a);
                        if shot(&b) != before { return Err(format!("call {k}: the other handle changed")); }
                        track::check().map_err(|e| format!("call {k} of {total}, later: {e}"))?;
                        calloc::check()?;
                        c.state(&(hn, dims, k));
                    }
                    Ok(())
                });
            }
        }

        // zero-sized elements: more drops than constructions never happen
        for dims in SHAPES {
            for what in 0..8 {
                c.case("zero-sized", || format!("{dims:?} operation {what}"), |c| {
                    for k in 0..c.pick(40, 120) {
                        track::reset();
                        calloc::reset();
                        {
                            let a = build(&M::<Zs>::seq(dims, 1), Prov::Mid);
                            track::arm(k);
                            c.tick();
                            let _ = catch(|| match what {
                                0 => vec![a.map(|v| v.clone())],
                                1 => vec![a.map2(&a, |v, _| v.clone())],
                                2 => vec![a.fold_axis(0, Zs::new(), |_, v| v.clone())],
                                3 => vec![a.normalize(-1, Zs::new(), |_, v| v.clone(), |s| s, |_, v| v.clone())],
                                4 => vec![a.append(&a), a.tile([2])],
                                5 => vec![essay_tensor::array::stack([&a, &a])],
                                6 => vec![Tensor::init(a.shape(), || { track::point(); Zs::new() })],
                                _ => vec![a.iter().map(|v| v.clone()).collect(), &a + &a, a.transpose()],
                            });
                            track::arm(-1);
                        }
                        if track::zlive() < 0 { return Err(format!("fault at {k}: {} elements dropped too often", -track::zlive())); }
                        calloc::check()?;
                    }
                    c.state(&(dims, what));
                    Ok(())
                });
            }
        }
    });
}
