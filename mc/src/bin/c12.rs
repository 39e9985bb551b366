//! C12: element-wise mapping and broadcasting.
use essay_tensor::tensor::Tensor;
use mc::*;

/// Index into an operand of shape `d` for the output index `idx`.
fn pick(d: &[usize], idx: &[usize]) -> usize {
    flat(d, &idx[idx.len() - d.len()..])
}

/// Trailing dimensions agree.
fn compat(a: &[usize], b: &[usize]) -> bool {
    a.iter().rev().zip(b.iter().rev()).all(|(x, y)| x == y)
}

fn longest<'a>(ds: &[&'a [usize]]) -> &'a [usize] {
    let mut best = ds[0];
    for d in ds {
        if d.len() > best.len() {
            best = d;
        }
    }
    best
}

fn map1<T: Elem>(c: &mut Ctx, d: &[usize], p: Prov) -> R {
    let m = M::<T>::seq(d, 1);
    let t = build(&m, p);
    c.state(&(d, p as u8));
    c.tick();
    let mut log = Vec::new();
    let r = ok("map", || t.map(|v| { log.push(v.clone()); (log.len() as u64, format!("{v:?}")) }.0))?;
    if log != m.data {
        return Err(format!("map visited {log:?}"));
    }
    let want: Vec<u64> = (1..=m.data.len() as u64).collect();
    same(&r, &M::new(d, want))?;
    same(&t, &m)
}

fn map2(c: &mut Ctx, da: &[usize], db: &[usize], pa: Prov, pb: Prov) -> R {
    let ma = M::<i32>::seq(da, 1);
    let mb = M::<u64>::seq(db, 100_001);
    let (a, b) = (build(&ma, pa), build(&mb, pb));
    c.state(&(da, db, pa as u8, pb as u8));
    c.tick();
    if !compat(da, db) {
        c.outcome(&"refused");
        return refused("map2", || a.map2(&b, |x, y| (*x, *y)));
    }
    let od = longest(&[da, db]);
    let mut want = Vec::new();
    for idx in indices(od) {
        want.push((ma.data[pick(da, &idx)], mb.data[pick(db, &idx)]));
    }
    let mut log = Vec::new();
    let r = ok("map2", || a.map2(&b, |x, y| { log.push((*x, *y)); (*x, *y) }))?;
    if log != want {
        return Err(format!("map2 called the function on {:?}..., expected {:?}...", &log[..log.len().min(20)], &want[..want.len().min(20)]));
    }
    c.outcome(&od);
    same(&r, &M::new(od, want))
}

fn map3(c: &mut Ctx, d: [&[usize]; 3], p: [Prov; 3]) -> R {
    let ma = M::<i32>::seq(d[0], 1);
    let mb = M::<u64>::seq(d[1], 100_001);
    let mc = M::<u16>::seq(d[2], 30_001);
    let (a, b, e) = (build(&ma, p[0]), build(&mb, p[1]), build(&mc, p[2]));
    c.state(&d);
    c.tick();
    if !(compat(d[0], d[1]) && compat(d[0], d[2]) && compat(d[1], d[2])) {
        return refused("map3", || a.map3(&b, &e, |x, y, z| (*x, *y, *z)));
    }
    let od = longest(&d);
    let mut want = Vec::new();
    for idx in indices(od) {
        want.push((ma.data[pick(d[0], &idx)], mb.data[pick(d[1], &idx)], mc.data[pick(d[2], &idx)]));
    }
    let mut log = Vec::new();
    let r = ok("map3", || a.map3(&b, &e, |x, y, z| { log.push((*x, *y, *z)); (*x, *y, *z) }))?;
    if log != want {
        return Err("map3 called the function on other elements, or in another order".into());
    }
    same(&r, &M::new(od, want))
}

/// The operators use the same rule.
fn ops2(c: &mut Ctx, da: &[usize], db: &[usize], p: Prov) -> R {
    let ma = M::<f32>::seq(da, 1);
    let mb = M::<f32>::seq(db, 4001);
    let (a, b) = (build(&ma, p), build(&mb, p));
    c.ticks(2);
    if !compat(da, db) {
        refused("&a - &b", || &a - &b)?;
        return refused("a.hypot(b)", || a.hypot(&b));
    }
    let od = longest(&[da, db]);
    let mut s = Vec::new();
    let mut h = Vec::new();
    for idx in indices(od) {
        let (x, y) = (ma.data[pick(da, &idx)], mb.data[pick(db, &idx)]);
        s.push(x - y);
        h.push(x.atan2(y));
    }
    ctx_err("&a - &b", same(&ok("sub", || &a - &b)?, &M::new(od, s)))?;
    let r: Tensor = ok("atan2", || a.atan2(&b))?;
    ctx_err("a.atan2(b)", same(&r, &M::new(od, h)))
}

fn main() {
    run("C12", |c| {
        let small = small_shapes(c.tier, 0, 6);
        let provs: &[Prov] = &ALL_PROV;
        for d in &small {
            for p in provs {
                c.case("map i32", || format!("{d:?} {p:?}"), |c| map1::<i32>(c, d, *p));
                c.case("map String", || format!("{d:?} {p:?}"), |c| map1::<String>(c, d, *p));
            }
        }
        for n in lengths(c, 0) {
            for p in [Prov::Own, Prov::Mid] {
                c.case("map length", || format!("[{n}] {p:?}"), |c| map1::<i32>(c, &[n], p));
                c.case("map length u8", || format!("[{n}] {p:?}"), |c| map1::<u8>(c, &[n], p));
            }
        }
        for d in long_shapes(c, 2, 6) {
            c.case("map long", || format!("{d:?}"), |c| map1::<i64>(c, &d, Prov::Own));
        }

        // all pairs of shapes, compatible or not
        let set: Vec<Vec<usize>> = {
            let mut v = vec![vec![]];
            for r in 1..=c.pick(3, 4) {
                v.extend(lists(r, &[1, 2, 3, 4]));
            }
            v.push(vec![6]);
            v.push(vec![12]);
            for r in 4..=6 {
                v.extend(lists(r, &[1, 2]));
            }
            v
        };
        let pp = [(Prov::Own, Prov::Own), (Prov::Mid, Prov::OuterTail), (Prov::OuterTail, Prov::Nested)];
        for a in &set {
            for b in &set {
                if c.quick() && a.len() + b.len() > 9 && !compat(a, b) {
                    continue;
                }
                for (pa, pb) in pp {
                    c.case("map2", || format!("{a:?} {b:?} {pa:?} {pb:?}"), |c| map2(c, a, b, pa, pb));
                }
                c.case("operators", || format!("{a:?} {b:?}"), |c| ops2(c, a, b, Prov::Mid));
            }
        }
        // all provenance pairs on selected shapes
        for (a, b) in [(vec![2, 3], vec![3]), (vec![3], vec![2, 3]), (vec![2, 3], vec![2, 3]), (vec![2, 2, 3], vec![]), (vec![], vec![4]), (vec![1], vec![5, 1])] {
            for pa in ALL_PROV {
                for pb in ALL_PROV {
                    c.case("map2 provenance", || format!("{a:?} {b:?} {pa:?} {pb:?}"), |c| map2(c, &a, &b, pa, pb));
                }
            }
        }
        // long operands: vector with itself, with a scalar, batch x row
        for n in lengths(c, 1) {
            for (a, b) in [(vec![n], vec![n]), (vec![n], vec![]), (vec![], vec![n]), (vec![3, n], vec![n]), (vec![n], vec![2, n]), (vec![n, 2], vec![2]), (vec![2], vec![n, 2]), (vec![n, 1], vec![1]), (vec![2, n], vec![2, n])] {
                c.case("map2 length", || format!("{a:?} {b:?}"), |c| map2(c, &a, &b, Prov::Own, Prov::Mid));
            }
            c.case("map2 length mismatch", || format!("[{n}] [{}]", n + 1), |c| map2(c, &[n], &[n + 1], Prov::Own, Prov::Own));
            c.case("map2 multiple", || format!("[{n}] [{}]", n * 2), |c| map2(c, &[n], &[n * 2], Prov::Own, Prov::Own));
            c.case("map3 length", || format!("[{n}]"), |c| map3(c, [&[n], &[2, n], &[]], [Prov::Own, Prov::Mid, Prov::Own]));
        }
        for d in long_shapes(c, 2, 4) {
            let tail = d[1..].to_vec();
            c.case("map2 long", || format!("{d:?} {tail:?}"), |c| map2(c, &d, &tail, Prov::Own, Prov::Mid));
            c.case("map2 long rev", || format!("{tail:?} {d:?}"), |c| map2(c, &tail, &d, Prov::OuterTail, Prov::Own));
        }
        // triples
        let set3: Vec<Vec<usize>> = {
            let mut v = vec![vec![], vec![6], vec![4]];
            for r in 1..=3 {
                v.extend(lists(r, c.pick(&[1, 2], &[1, 2, 3])));
            }
            v.push(vec![1, 1, 2, 2]);
            v.push(vec![2, 1, 2, 2]);
            v.push(vec![3]);
            v.push(vec![2, 3]);
            v.push(vec![3, 2, 3]);
            v
        };
        for a in &set3 {
            for b in &set3 {
                for e in &set3 {
                    c.case("map3", || format!("{a:?} {b:?} {e:?}"), |c| map3(c, [a, b, e], [Prov::Own, Prov::Mid, Prov::OuterTail]));
                }
            }
        }
    });
}
