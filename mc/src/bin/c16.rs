//! C16: statistical reductions.
use essay_tensor::tensor::Tensor;
use mc::*;

fn lanes(d: &[usize], axis: Option<usize>) -> (Vec<usize>, Vec<Vec<usize>>) {
    match axis {
        Some(a) if d.len() > 1 => {
            let mut od = d.to_vec();
            let n = od.remove(a);
            let v = indices(&od).iter().map(|idx| (0..n).map(|k| {
                let mut i = idx.clone();
                i.insert(a, k);
                flat(d, &i)
            }).collect()).collect();
            (od, v)
        }
        _ => (vec![], vec![(0..size(d)).collect()]),
    }
}

struct Stat {
    n: f64,
    sum: f64,
    abs: f64,
    mean: f64,
    var: f64,
    sq: f64,
    min: f32,
    max: f32,
    prod: f64,
    big: f64,
    /// conditioning of the variance
    kappa: f64,
}

fn stat(v: &[f32]) -> Stat {
    let n = v.len() as f64;
    let sum: f64 = v.iter().map(|x| *x as f64).sum();
    let mean = sum / n;
    let var = v.iter().map(|x| (*x as f64 - mean).powi(2)).sum::<f64>() / n;
    let sq = v.iter().map(|x| (*x as f64).powi(2)).sum::<f64>();
    Stat {
        n, sum, mean, var, sq,
        abs: v.iter().map(|x| x.abs() as f64).sum(),
        min: v.iter().cloned().fold(f32::INFINITY, f32::min),
        max: v.iter().cloned().fold(f32::NEG_INFINITY, f32::max),
        prod: v.iter().map(|x| *x as f64).product(),
        big: v.iter().fold(0f64, |m, x| m.max(x.abs() as f64)),
        kappa: if var > 0. { (1. + mean * mean / var).sqrt() } else { 1. },
    }
}

const EPS: f64 = 1.2e-7;

fn close(what: &str, got: f32, want: f64, tol: f64, lane: &[f32]) -> R {
    if (got as f64 - want).abs() <= tol {
        return Ok(());
    }
    Err(format!("{what} of {:?}.. ({} values) is {got}, expected {want} (tolerance {tol:e})", &lane[..lane.len().min(12)], lane.len()))
}

fn check_lane(v: &[f32], f: [f32; 8]) -> R {
    let [sum, prod, min, max, mean, var, std, _] = f;
    let s = stat(v);
    let t = 2. * EPS * (s.n + 2.);
    close("sum", sum, s.sum, t * s.abs, v)?;
    // only where no association of the factors leaves the normal range
    let up: f64 = v.iter().map(|x| (x.abs() as f64).max(1.)).product();
    let down: f64 = v.iter().map(|x| if *x == 0. { 1. } else { (x.abs() as f64).min(1.) }).product();
    if up < 1e37 && down > 1e-30 {
        close("product", prod, s.prod, t * s.prod.abs(), v)?;
    }
    if min != s.min || max != s.max {
        return Err(format!("min {min} max {max}, expected {} {} of {v:?}", s.min, s.max));
    }
    close("mean", mean, s.mean, t * s.abs / s.n + 1e-44, v)?;
    // Welford: relative error about n eps kappa, plus the rounding of the mean
    let vt = 4. * t * s.kappa * s.var + 4. * (EPS * s.big * s.n.sqrt()).powi(2) + 1e-44;
    close("variance", var, s.var, vt, v)?;
    if !(var >= 0.) {
        return Err(format!("variance {var} of {v:?}"));
    }
    if v.len() == 1 && (var != 0. || std != 0.) {
        return Err(format!("variance {var}, deviation {std} of one value"));
    }
    if (std as f64 - (var as f64).sqrt()).abs() > 1e-6 * (var as f64).sqrt() + 1e-22 {
        return Err(format!("deviation {std} is not the root of variance {var}"));
    }
    Ok(())
}

fn whole(c: &mut Ctx, d: &[usize], v: &[f32], p: Prov) -> R {
    let m = M::<f32>::new(d, v.to_vec());
    let t = build(&m, p);
    c.ticks(8);
    let one = |what: &str, r: Tensor| -> Result<f32, String> {
        if dims_of(&r) != [0usize; 0] || r.size() != 1 {
            return Err(format!("{what}: dimensions {:?}", dims_of(&r)));
        }
        Ok(r[0])
    };
    let f = [
        one("sum", ok("sum", || t.reduce_sum())?)?, one("product", ok("product", || t.reduce_product())?)?,
        one("min", ok("min", || t.reduce_min())?)?, one("max", ok("max", || t.reduce_max())?)?,
        one("mean", ok("mean", || t.reduce_mean())?)?, one("variance", ok("variance", || t.reduce_variance())?)?,
        one("std", ok("std", || t.reduce_std())?)?, 0.,
    ];
    check_lane(v, f)?;
    let s = stat(v);
    let h = one("hypot", ok("hypot", || t.reduce_hypot())?)?;
    close("hypot", h, s.sq.sqrt(), 2. * EPS * (s.n + 2.) * s.sq.sqrt() + 1e-22, v)?;
    let t64 = t.map(|x| *x as f64);
    let h = ok("hypot f64", || t64.reduce_hypot())?[0];
    if (h - s.sq.sqrt()).abs() > 1e-14 * (s.n + 2.) * s.sq.sqrt() {
        return Err(format!("f64 hypot {h}, expected {}", s.sq.sqrt()));
    }
    same(&t, &m)
}

fn axis(c: &mut Ctx, d: &[usize], v: &[f32], p: Prov, ax: Option<(isize, usize)>) -> R {
    let m = M::<f32>::new(d, v.to_vec());
    let t = build(&m, p);
    c.ticks(7);
    c.state(&(d, ax));
    let a = ax.map(|a| a.0);
    let rs = [
        ok("sum", || t.reduce_sum_axis(a))?, ok("product", || t.reduce_product_axis(a))?,
        ok("min", || t.reduce_min_axis(a))?, ok("max", || t.reduce_max_axis(a))?,
        ok("mean", || t.reduce_mean_axis(a))?, ok("variance", || t.reduce_variance_axis(a))?,
        ok("std", || t.reduce_std_axis(a))?,
    ];
    let (od, ls) = lanes(d, ax.map(|a| a.1));
    for (k, r) in rs.iter().enumerate() {
        if dims_of(r) != od {
            return Err(format!("reduction {k}: dimensions {:?}, expected {od:?}", dims_of(r)));
        }
    }
    for (i, l) in ls.iter().enumerate() {
        let lane: Vec<f32> = l.iter().map(|k| v[*k]).collect();
        let mut f = [0.; 8];
        for (k, r) in rs.iter().enumerate() {
            f[k] = r[i];
        }
        check_lane(&lane, f).map_err(|e| format!("position {i}: {e}"))?;
    }
    Ok(())
}

fn vals(n: usize, k: usize) -> Vec<f32> {
    (0..n).map(|i| match k {
        0 => ((i * 37 + 11) % 101) as f32 - 50.,
        1 => 1000. + ((i * 7) % 13) as f32 * 0.5,
        2 => if i % 3 == 0 { -0.25 } else { 1.5 + (i % 4) as f32 },
        _ => ((i * 7919) % 4093) as f32 * 1e-3 - 2.,
    }).collect()
}

fn ints(c: &mut Ctx) -> R {
    // sums and products of every integer type, all short sequences
    macro_rules! go { ($($t:ty)*) => { $(
        for n in 1..=4 {
            for l in lists(n, &[0, 1, 2, 3]) {
                let v: Vec<$t> = l.iter().map(|x| *x as $t).collect();
                let t = Tensor::from(v.clone());
                c.ticks(2);
                let (s, p) = (v.iter().sum::<$t>(), v.iter().product::<$t>());
                if t.reduce_sum() != Tensor::from(s) || t.reduce_product() != Tensor::from(p) {
                    return Err(format!("{} {v:?}: {:?} {:?}", stringify!($t), t.reduce_sum(), t.reduce_product()));
                }
            }
        }
    )* } }
    go!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize f64);
    Ok(())
}

/// Double precision: what f32 arithmetic on the way would lose.
fn wide(c: &mut Ctx, v: &[f64]) -> R {
    let t = Tensor::from(v.to_vec());
    c.ticks(5);
    let n = v.len() as f64;
    let big = v.iter().fold(0f64, |m, x| m.max(x.abs()));
    let near = |what: &str, got: f64, want: f64, tol: f64| {
        if (got - want).abs() <= tol || got == want { Ok(()) } else { Err(format!("f64 {what} {got:?}, expected {want:?}")) }
    };
    let (lo, hi) = (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
    near("min", ok("min", || t.reduce_min())?[0], lo, 0.)?;
    near("max", ok("max", || t.reduce_max())?[0], hi, 0.)?;
    near("min axis", ok("min", || t.reduce_min_axis(0))?[0], lo, 0.)?;
    near("max axis", ok("max", || t.reduce_max_axis(-1))?[0], hi, 0.)?;
    let sum: f64 = v.iter().sum();
    near("sum", ok("sum", || t.reduce_sum())?[0], sum, 1e-15 * n * n * big)?;
    near("sum axis", ok("sum", || t.reduce_sum_axis(0))?[0], sum, 1e-15 * n * n * big)?;
    let prod: f64 = v.iter().product();
    if prod.is_finite() && (prod.abs() > 1e-290 || v.contains(&0.)) && big < 1e100 {
        near("product", ok("product", || t.reduce_product())?[0], prod, 1e-15 * n * prod.abs())?;
        near("product axis", ok("product", || t.reduce_product_axis(0))?[0], prod, 1e-15 * n * prod.abs())?;
    }
    let h = big * v.iter().map(|x| if big == 0. { 0. } else { (x / big).powi(2) }).sum::<f64>().sqrt();
    // squares that neither overflow nor vanish
    if big < 1e150 && (big == 0. || big > 1e-140) {
        near("hypot", ok("hypot", || t.reduce_hypot())?[0], h, 1e-14 * n * h)?;
    }
    Ok(())
}

fn main() {
    run("C16", |c| {
        c.case("integers", || "all types".into(), ints);
        // all short sequences over an alphabet, with cancellation and offsets
        let alpha: Vec<f32> = vec![0., 1., -1., 2.5, -3., 100., 1e-3, 1e6, -1e6, 1e-12];
        let n_max = c.pick(4, 5);
        for n in 1..=n_max {
            for l in lists(n, &(0..alpha.len()).collect::<Vec<_>>()) {
                let v: Vec<f32> = l.iter().map(|i| alpha[*i]).collect();
                c.case("sequences", || format!("{v:?}"), |c| whole(c, &[n], &v, Prov::Own));
            }
        }
        for off in [0f32, 1., 100., 1000., 4096., -4096., 65536., 1e6] {
            for n in 1..=5 {
                for l in lists(n, &[0, 1, 2, 3]) {
                    let v: Vec<f32> = l.iter().map(|i| off + [0., 1., -0.5, 0.25][*i]).collect();
                    c.case("offset", || format!("{v:?}"), |c| { c.state(&v.iter().map(|x| x.to_bits()).collect::<Vec<_>>()); whole(c, &[n], &v, Prov::Mid) });
                }
            }
        }
        for d in small_shapes(c.tier, 0, 6) {
            for k in 0..3 {
                let v = vals(size(&d), k);
                for p in FEW_PROV {
                    c.case("shape", || format!("{d:?} {k} {p:?}"), |c| whole(c, &d, &v, p));
                    c.case("shape none", || format!("{d:?} {k} {p:?}"), |c| axis(c, &d, &v, p, None));
                    for ax in axes(d.len()) {
                        c.case("axis", || format!("{d:?} {ax:?} {k} {p:?}"), |c| axis(c, &d, &v, p, Some(ax)));
                    }
                }
            }
        }
        for d in long_shapes(c, 1, 5) {
            let v = vals(size(&d), 0);
            for ax in axes(d.len()) {
                c.case("axis long", || format!("{d:?} {ax:?}"), |c| axis(c, &d, &v, Prov::Mid, Some(ax)));
            }
        }
        for n in lengths(c, 1).into_iter().chain([300_000, 1 << 20]) {
            for k in if n > 20_000 { 1..4 } else { 0..4 } {
                let v = vals(n, k);
                c.case("length", || format!("{n} {k}"), |c| whole(c, &[n], &v, Prov::Own));
                c.case("length 2", || format!("{n} {k}"), |c| axis(c, &[n], &v, Prov::Own, Some((-1, 0))));
                let w = vals(n * 3, k);
                c.case("length 3", || format!("{n} {k}"), |c| axis(c, &[n, 3], &w, Prov::Mid, Some((0, 0))));
                c.case("length 4", || format!("{n} {k}"), |c| axis(c, &[3, n], &w, Prov::Mid, Some((1, 1))));
            }
            // the extreme at each position of interest
            for pos in [0, 1, n / 2, n - 1] {
                if pos < n && n <= 140_000 {
                    let mut v = vals(n, 0);
                    v[pos] = 5000.;
                    c.case("extreme", || format!("{n} max at {pos}"), |c| whole(c, &[n], &v, Prov::Own));
                    v[pos] = -5000.;
                    c.case("extreme", || format!("{n} min at {pos}"), |c| whole(c, &[n], &v, Prov::Own));
                }
            }
        }
        let alpha = [0., 1., -1., 3e30, 4e30, -1e39, 1e100, -1e140, 1e-30, 3e-60, -1e-100, 16777217., 1. + 1e-12, -1e15 - 1., 0.1];
        for n in 1..=c.pick(3, 4) {
            for l in lists(n, &(0..alpha.len()).collect::<Vec<_>>()) {
                let v: Vec<f64> = l.iter().map(|i| alpha[*i]).collect();
                c.case("f64", || format!("{v:?}"), |c| wide(c, &v));
            }
        }
        for l in lists(3, &[0, 1, 2, 3, 4]) {
            let v: Vec<f32> = l.iter().map(|i| [f32::INFINITY, f32::NEG_INFINITY, 0., f32::MAX, -1.][*i]).collect();
            c.case("min max infinite", || format!("{v:?}"), |_| {
                let t = Tensor::from(v.clone());
                let (lo, hi) = (v.iter().cloned().fold(f32::INFINITY, f32::min), v.iter().cloned().fold(f32::NEG_INFINITY, f32::max));
                if t.reduce_min()[0] != lo || t.reduce_max()[0] != hi {
                    return Err(format!("{:?} {:?}", t.reduce_min(), t.reduce_max()));
                }
                Ok(())
            });
        }
    });
}
