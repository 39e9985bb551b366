//! C21: matrix products.
use essay_tensor::linalg;
use essay_tensor::tensor::Tensor;
use mc::*;

fn vals(n: usize, kind: usize, salt: usize) -> Vec<f32> {
    (0..n).map(|i| {
        let h = (i * 7919 + salt * 104_729 + i / 7) % 65_521;
        match kind {
            // small integers: sums are exact in any order
            0 => (h % 13) as f32 - 6.,
            1 => (h % 2001) as f32 * 1e-2 - 10.,
            _ => [0., 1., -1., 0.5, 1e3, -1e-3][h % 6],
        }
    }).collect()
}

/// got must be the sum of products, up to rounding of any summation order.
fn dot(what: &str, at: &[usize], got: f32, terms: &[(f32, f32)]) -> R {
    let want: f64 = terms.iter().map(|(a, b)| *a as f64 * *b as f64).sum();
    let abs: f64 = terms.iter().map(|(a, b)| (*a as f64 * *b as f64).abs()).sum();
    if !want.is_finite() {
        return if want.is_nan() && got.is_nan() || got as f64 == want { Ok(()) } else { Err(format!("{what} at {at:?} is {got}, expected {want}")) };
    }
    let tol = 1.2e-7 * (terms.len() as f64 + 2.) * abs;
    if (got as f64 - want).abs() <= tol { Ok(()) } else { Err(format!("{what} at {at:?} is {got}, expected {want}")) }
}

fn matmul(c: &mut Ctx, batch: &[usize], m: usize, k: usize, n: usize, kind: usize, pa: Prov, pb: Prov) -> R {
    let dims = |r, s| { let mut d = batch.to_vec(); d.push(r); d.push(s); d };
    let (da, db, dr) = (dims(m, k), dims(k, n), dims(m, n));
    let ma = M::new(&da, vals(size(&da), kind, 1));
    let mb = M::new(&db, vals(size(&db), kind, 2));
    let (a, b) = (build(&ma, pa), build(&mb, pb));
    c.state(&(batch, m, k, n, kind));
    c.outcome(&dr);
    c.ticks(2);
    let r = ok("matmul", || a.matmul(&b))?;
    if dims_of(&r) != dr || r.as_slice().len() != size(&dr) {
        return Err(format!("dimensions {:?}, expected {dr:?}", dims_of(&r)));
    }
    let r2 = ok("linalg::matmul", || linalg::matmul(&a, &b))?;
    if dims_of(&r2) != dr {
        return Err(format!("linalg::matmul dimensions {:?}, expected {dr:?}", dims_of(&r2)));
    }
    let (rs, r2s) = (r.as_slice(), r2.as_slice());
    let mut terms = Vec::with_capacity(k);
    for q in 0..size(batch) {
        for i in 0..m {
            for j in 0..n {
                terms.clear();
                for l in 0..k {
                    terms.push((ma.data[(q * m + i) * k + l], mb.data[(q * k + l) * n + j]));
                }
                dot("matmul", &[q, i, j], rs[(q * m + i) * n + j], &terms)?;
                dot("linalg::matmul", &[q, i, j], r2s[(q * m + i) * n + j], &terms)?;
            }
        }
    }
    same(&a, &ma)?;
    same(&b, &mb)
}

/// Infinities, NaN and zeros take part in the sums like any other value: one
/// of them at every position of one operand, the other one constant.
fn special(c: &mut Ctx, m: usize, k: usize, n: usize) -> R {
    const INF: f32 = f32::INFINITY;
    let (da, db) = (m * k, k * n);
    let step = |len: usize| if len > 64 { len / 23 } else { 1 };
    for left in [true, false] {
        for base in [0f32, 2.] {
            for other in [0f32, 1., INF, -INF, f32::NAN] {
                for sv in [INF, -INF, f32::NAN, 0.] {
                    for at in (0..if left { da } else { db }).step_by(step(if left { da } else { db })) {
                        let (mut va, mut vb) = if left { (vec![base; da], vec![other; db]) } else { (vec![other; da], vec![base; db]) };
                        if left { va[at] = sv } else { vb[at] = sv }
                        let a = build(&M::new(&[m, k], va.clone()), Prov::Own);
                        let b = build(&M::new(&[k, n], vb.clone()), Prov::Mid);
                        c.ticks(2);
                        let r = ok("matmul", || a.matmul(&b))?;
                        let bt: Vec<f32> = (0..n).flat_map(|j| (0..k).map(move |l| (l, j))).map(|(l, j)| vb[l * n + j]).collect();
                        let x = build(&M::new(&[n, k], bt), Prov::Own);
                        let v = ok("matvec", || a.matvec(&x))?;
                        if dims_of(&r) != [m, n] || dims_of(&v) != [n, m] {
                            return Err(format!("dimensions {:?} {:?}", dims_of(&r), dims_of(&v)));
                        }
                        for i in 0..m {
                            for j in 0..n {
                                let terms: Vec<(f32, f32)> = (0..k).map(|l| (va[i * k + l], vb[l * n + j])).collect();
                                let e = |x: String| format!("{x} for {base} with {sv} at {at} ({}) and {other}", if left { "left" } else { "right" });
                                dot("matmul", &[i, j], r.as_slice()[i * n + j], &terms).map_err(e)?;
                                dot("matvec", &[j, i], v.as_slice()[j * m + i], &terms).map_err(e)?;
                            }
                        }
                    }
                }
            }
        }
    }
    c.state(&(m, k, n, "special"));
    Ok(())
}

fn matmul_any(c: &mut Ctx, da: &[usize], db: &[usize]) -> R {
    let (ra, rb) = (da.len(), db.len());
    let fits = ra >= 2 && rb >= 2 && da[..ra - 2] == db[..rb - 2] && da[ra - 1] == db[rb - 2];
    if fits {
        return matmul(c, &da[..ra - 2], da[ra - 2], da[ra - 1], db[rb - 1], 0, Prov::Mid, Prov::Own);
    }
    let (ma, mb) = (M::new(da, vals(size(da), 0, 1)), M::new(db, vals(size(db), 0, 2)));
    let (a, b) = (build(&ma, Prov::Mid), build(&mb, Prov::Mid));
    c.state(&(da, db, "matmul any"));
    c.ticks(2);
    refused("matmul", || a.matmul(&b))?;
    refused("linalg::matmul", || linalg::matmul(&a, &b))?;
    same(&a, &ma)?;
    same(&b, &mb)
}

/// x has dimensions batch + [rows, k] or [k]
fn matvec(c: &mut Ctx, ba: &[usize], bx: &[usize], m: usize, k: usize, rows: Option<usize>, kind: usize, pa: Prov, px: Prov, lenient: bool) -> R {
    let mut da = ba.to_vec();
    da.extend([m, k]);
    let mut dx = bx.to_vec();
    dx.extend(rows);
    let mut dr = dx.clone();
    dx.push(k);
    dr.push(m);
    let ma = M::new(&da, vals(size(&da), kind, 1));
    let mx = M::new(&dx, vals(size(&dx), kind, 2));
    let (a, x) = (build(&ma, pa), build(&mx, px));
    c.state(&(&da, &dx, kind));
    c.tick();
    let r = match catch(|| a.matvec(&x)) {
        Ok(r) => r,
        Err(_) if lenient => return Ok(()),
        Err(e) => return Err(format!("matvec: unexpected panic: {e}")),
    };
    c.outcome(&dr);
    if dims_of(&r) != dr || r.as_slice().len() != size(&dr) {
        return Err(format!("dimensions {:?}, expected {dr:?}", dims_of(&r)));
    }
    let rows = rows.unwrap_or(1);
    let na = size(ba);
    let rs = r.as_slice();
    let mut terms = Vec::with_capacity(k);
    for q in 0..size(bx) {
        for i in 0..rows {
            for j in 0..m {
                terms.clear();
                for l in 0..k {
                    terms.push((ma.data[((q % na) * m + j) * k + l], mx.data[(q * rows + i) * k + l]));
                }
                dot("matvec", &[q, i, j], rs[(q * rows + i) * m + j], &terms)?;
            }
        }
    }
    same(&a, &ma)?;
    same(&x, &mx)
}

fn matvec_any(c: &mut Ctx, da: &[usize], dx: &[usize]) -> R {
    let (ra, rx) = (da.len(), dx.len());
    if rx == 0 {
        return Ok(());
    }
    let refuse = |c: &mut Ctx| -> R {
        let (ma, mx) = (M::new(da, vals(size(da), 0, 1)), M::new(dx, vals(size(dx), 0, 2)));
        let (a, x) = (build(&ma, Prov::Mid), build(&mx, Prov::Mid));
        c.state(&(da, dx, "matvec any"));
        c.tick();
        refused("matvec", || a.matvec(&x))?;
        same(&a, &ma)?;
        same(&x, &mx)
    };
    if ra < 2 || da[ra - 1] != dx[rx - 1] {
        return refuse(c);
    }
    let ba = &da[..ra - 2];
    let (m, k) = (da[ra - 2], da[ra - 1]);
    if rx == 1 {
        // a batch of matrices with a single vector is not specified
        if size(ba) != 1 {
            return refuse_or_skip(c, da, dx);
        }
        return matvec(c, ba, &[], m, k, None, 0, Prov::Mid, Prov::Own, !ba.is_empty());
    }
    let bx = &dx[..rx - 2];
    let suffix = |s: &[usize], l: &[usize]| l.len() >= s.len() && l[l.len() - s.len()..] == *s;
    if bx == ba || ba.is_empty() {
        matvec(c, ba, bx, m, k, Some(dx[rx - 2]), 0, Prov::Mid, Prov::Own, false)
    } else if suffix(ba, bx) {
        matvec(c, ba, bx, m, k, Some(dx[rx - 2]), 0, Prov::Mid, Prov::Own, true)
    } else if suffix(bx, ba) {
        refuse_or_skip(c, da, dx)
    } else {
        refuse(c)
    }
}

/// Unspecified (fewer vectors than matrices): only the operands must survive.
fn refuse_or_skip(c: &mut Ctx, da: &[usize], dx: &[usize]) -> R {
    let (ma, mx) = (M::new(da, vals(size(da), 0, 1)), M::new(dx, vals(size(dx), 0, 2)));
    let (a, x) = (build(&ma, Prov::Mid), build(&mx, Prov::Mid));
    c.tick();
    if let Ok(r) = catch(|| a.matvec(&x)) {
        if r.as_slice().len() != size(&dims_of(&r)) {
            return Err("size".into());
        }
    }
    same(&a, &ma)?;
    same(&x, &mx)
}

fn main() {
    run("C21", |c| {
        for d in lists(3, &[1, 2, 3, 4]).into_iter().chain([vec![8, 8, 8], vec![9, 17, 5], vec![1, 40, 1], vec![40, 1, 3], vec![17, 16, 33]]) {
            c.case("special values", || format!("{d:?}"), |c| special(c, d[0], d[1], d[2]));
        }
        let _: Option<Tensor> = None;
        let top = c.pick(13, 24);
        for m in 1..=top {
            for k in 1..=top {
                for n in 1..=top {
                    for kind in 0..2 {
                        c.case("matmul", || format!("{m}x{k}x{n} {kind}"), |c| matmul(c, &[], m, k, n, kind, Prov::Mid, Prov::Tail));
                        if kind == 0 {
                            c.case("matvec", || format!("{m}x{k} rows {n}"), |c| matvec(c, &[], &[], m, k, Some(n), kind, Prov::Mid, Prov::Tail, false));
                        }
                    }
                }
                c.case("matvec 1", || format!("{m}x{k}"), |c| matvec(c, &[], &[], m, k, None, 1, Prov::Mid, Prov::Tail, false));
            }
        }
        for batch in (1..=4).flat_map(|r| lists(r, if r <= 2 { &[1, 2, 3] } else { &[1, 2] })) {
            for (m, k, n) in lists(3, &[1, 2, 3]).iter().map(|l| (l[0], l[1], l[2])).chain([(4, 5, 6), (8, 4, 8), (1, 9, 1), (5, 1, 7)]) {
                for (pa, pb) in [(Prov::Own, Prov::Own), (Prov::Mid, Prov::OuterTail), (Prov::Outer, Prov::Mid)] {
                    c.case("matmul batch", || format!("{batch:?} {m}x{k}x{n} {pa:?} {pb:?}"), |c| matmul(c, &batch, m, k, n, 0, pa, pb));
                    c.case("matvec batch", || format!("{batch:?} {m}x{k} rows {n}"), |c| matvec(c, &batch, &batch, m, k, Some(n), 0, pa, pb, false));
                    c.case("matvec shared", || format!("{batch:?} {m}x{k} rows {n}"), |c| matvec(c, &[], &batch, m, k, Some(n), 0, pa, pb, false));
                }
            }
        }
        for p in ALL_PROV {
            for q in ALL_PROV {
                for (m, k, n) in [(1, 1, 1), (2, 3, 4), (3, 1, 2), (4, 4, 4), (2, 8, 1)] {
                    c.case("provenance", || format!("{m}x{k}x{n} {p:?} {q:?}"), |c| matmul(c, &[], m, k, n, 2, p, q));
                    c.case("provenance vec", || format!("{m}x{k}x{n} {p:?} {q:?}"), |c| matvec(c, &[], &[], m, k, Some(n), 2, p, q, false));
                    c.case("provenance vec 1", || format!("{m}x{k} {p:?} {q:?}"), |c| matvec(c, &[], &[], m, k, None, 2, p, q, false));
                    c.case("provenance batch", || format!("{m}x{k}x{n} {p:?} {q:?}"), |c| matmul(c, &[2], m, k, n, 2, p, q));
                }
            }
        }
        let all: Vec<Vec<usize>> = (0..=2).flat_map(|r| lists(r, &[1, 2, 3])).chain(lists(3, &[1, 2, 3])).chain(lists(4, &[1, 2])).collect();
        for a in &all {
            for b in &all {
                c.case("matmul any", || format!("{a:?} {b:?}"), |c| matmul_any(c, a, b));
                c.case("matvec any", || format!("{a:?} {b:?}"), |c| matvec_any(c, a, b));
            }
        }
        // one long side at a time, around powers of two
        for n in lengths(c, 1) {
            if n > c.pick(70_000, 140_000) { continue; }
            for (m, k, p) in [(n, 2, 3), (2, n, 3), (3, 2, n), (1, n, 1), (n, 1, 2), (5, n, 4), (n, 5, 7), (7, 5, n), (n, 1, 1), (1, 1, n), (8, n, 8)] {
                c.case("matmul long", || format!("{m}x{k}x{p}"), |c| matmul(c, &[], m, k, p, 0, Prov::Own, Prov::Mid));
                c.case("matvec long", || format!("{m}x{k} rows {p}"), |c| matvec(c, &[], &[], m, k, Some(p), 0, Prov::Own, Prov::Mid, false));
            }
            c.case("matvec long 1", || format!("3x{n}"), |c| matvec(c, &[], &[], 3, n, None, 0, Prov::Own, Prov::Mid, false));
            c.case("matvec long 2", || format!("{n}x3"), |c| matvec(c, &[], &[], n, 3, None, 0, Prov::Own, Prov::Mid, false));
            if n <= c.pick(1100, 5000) {
                c.case("matmul batch long", || format!("{n} matrices"), |c| matmul(c, &[n], 2, 3, 2, 0, Prov::Own, Prov::Mid));
                c.case("matvec batch long", || format!("{n} matrices"), |c| matvec(c, &[n], &[n], 2, 3, Some(2), 0, Prov::Own, Prov::Mid, false));
                c.case("matvec shared long", || format!("{n} batches"), |c| matvec(c, &[], &[n], 2, 3, Some(2), 0, Prov::Own, Prov::Mid, false));
            }
        }
        for (m, k, n) in [(256, 256, 256), (257, 255, 258), (300, 10, 300), (10, 300, 10), (512, 64, 3), (3, 512, 64), (500, 500, 2), (1, 1000, 500), (500, 1000, 1)] {
            c.case("matmul large", || format!("{m}x{k}x{n}"), |c| matmul(c, &[], m, k, n, 0, Prov::Own, Prov::Mid));
            c.case("matvec large", || format!("{m}x{k} rows {n}"), |c| matvec(c, &[], &[], m, k, Some(n), 0, Prov::Own, Prov::Mid, false));
        }
        let sq = c.pick(vec![16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129], vec![16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 96, 127, 128, 129, 200, 256]);
        for &m in &sq {
            for &k in &sq {
                for &n in &sq {
                    c.case("matvec square", || format!("{m}x{k} rows {n}"), |c| matvec(c, &[], &[], m, k, Some(n), 0, Prov::Own, Prov::Own, false));
                    c.case("matmul square", || format!("{m}x{k}x{n}"), |c| matmul(c, &[], m, k, n, 0, Prov::Own, Prov::Own));
                }
            }
        }
    });
}
