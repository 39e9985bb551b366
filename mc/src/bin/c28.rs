//! C28: histograms.
use essay_tensor::stats::{histogram, histogram2d, Hist2Args, HistArgs};
use essay_tensor::tensor::Tensor;
use mc::*;

/// The bins a value may be counted in: one, or two next to an edge that is
/// not exactly representable.
fn allowed(v: f32, min: f32, max: f32, n: usize) -> (usize, usize) {
    if min == max {
        return (0, n - 1);
    }
    if v == min { return (0, 0); }
    if v == max { return (n - 1, n - 1); }
    let (v, lo, hi) = (v as f64, min as f64, max as f64);
    let range = hi - lo;
    let pos = (v - lo) * n as f64 / range;
    let delta = range / n as f64;
    let exact = |x: f64| x * 1024. == (x * 1024.).trunc() && x.abs() * 1024. < (1u64 << 22) as f64;
    let k = |x: f64| (x.max(0.) as usize).min(n - 1);
    if exact(delta) && exact(v) && exact(lo) && exact(hi) {
        return (k(pos), k(pos));
    }
    let err = 4e-6 * n as f64 * ((lo.abs().max(hi.abs()) + range) / range);
    (k((pos - err).floor()), k((pos + err).floor()))
}

fn edges(t: &Tensor, min: f32, max: f32, n: usize) -> R {
    let tol = 4e-6 * (min.abs().max(max.abs()) as f64) + 1e-30;
    let want: Vec<f64> = (0..=n).map(|i| min as f64 + (max as f64 - min as f64) * i as f64 / n as f64).collect();
    same_by(t, &[n + 1], &want, |a, b| (*a as f64 - b).abs() <= tol)
}

fn minmax(v: &[f32]) -> (f32, f32) {
    (v.iter().cloned().fold(f32::INFINITY, f32::min), v.iter().cloned().fold(f32::NEG_INFINITY, f32::max))
}

fn one(c: &mut Ctx, data: &[f32], n: usize, prov: Prov, form: usize) -> R {
    c.tick();
    let t = build(&M::new(&[data.len()], data.to_vec()), prov);
    let (values, bins) = ok("histogram", || match form {
        0 => histogram(&t, n),
        1 => histogram(t.clone(), HistArgs::new().n_bins(n)),
        2 => histogram(&t, HistArgs::default().n_bins(n + 1).n_bins(n)),
        _ => histogram(&t, ()),
    })?;
    let n = if form == 3 { 10 } else { n };
    let (min, max) = minmax(data);
    ctx_err("edges", edges(&bins, min, max, n))?;
    if dims_of(&values) != [n] {
        return Err(format!("{:?} counts for {n} bins", dims_of(&values)));
    }
    let mut lo = vec![0f32; n];
    let mut hi = vec![0f32; n];
    for v in data {
        let (a, b) = allowed(*v, min, max, n);
        if a == b { lo[a] += 1.; }
        for k in a..=b { hi[k] += 1.; }
    }
    c.outcome(&values.iter().map(|v| *v as u64).collect::<Vec<_>>());
    let total: f32 = values.iter().sum();
    if total != data.len() as f32 {
        return Err(format!("{} values were counted {total} times: {values:?}", data.len()));
    }
    if min == max && values.iter().filter(|v| **v != 0.).count() != 1 {
        return Err(format!("equal values were counted in several bins: {values:?}"));
    }
    for k in 0..n {
        if !(values[k] >= lo[k] && values[k] <= hi[k]) {
            return Err(format!("bin {k} of {n} has count {}, expected {}..={} (edges {bins:?})", values[k], lo[k], hi[k]));
        }
    }
    same(&t, &M::new(&[data.len()], data.to_vec()))
}

fn two(c: &mut Ctx, data: &[(f32, f32)], n: usize, prov: Prov, form: usize) -> R {
    c.tick();
    let m = M::new(&[data.len(), 2], data.iter().flat_map(|p| [p.0, p.1]).collect());
    let t = build(&m, prov);
    let (values, bx, by) = ok("histogram2d", || match form {
        0 => histogram2d(&t, n),
        1 => histogram2d(t.clone(), Hist2Args::new().n_bins(n)),
        2 => histogram2d(&t, Hist2Args::default().n_bins(n + 1).n_bins(n)),
        _ => histogram2d(&t, ()),
    })?;
    let n = if form == 3 { 10 } else { n };
    let (x0, x1) = minmax(&data.iter().map(|p| p.0).collect::<Vec<_>>());
    let (y0, y1) = minmax(&data.iter().map(|p| p.1).collect::<Vec<_>>());
    ctx_err("x edges", edges(&bx, x0, x1, n))?;
    ctx_err("y edges", edges(&by, y0, y1, n))?;
    if dims_of(&values) != [n, n] {
        return Err(format!("{:?} counts for {n} bins", dims_of(&values)));
    }
    let mut lo = vec![0f32; n * n];
    let mut hi = vec![0f32; n * n];
    for (x, y) in data {
        let (xa, xb) = allowed(*x, x0, x1, n);
        let (ya, yb) = allowed(*y, y0, y1, n);
        if xa == xb && ya == yb { lo[ya * n + xa] += 1.; }
        for j in ya..=yb { for i in xa..=xb { hi[j * n + i] += 1.; } }
    }
    c.outcome(&values.iter().map(|v| *v as u64).collect::<Vec<_>>());
    let total: f32 = values.iter().sum();
    if total != data.len() as f32 {
        return Err(format!("{} points were counted {total} times: {values:?}", data.len()));
    }
    for k in 0..n * n {
        if !(values.as_slice()[k] >= lo[k] && values.as_slice()[k] <= hi[k]) {
            return Err(format!("row {} column {} of {n} has count {}, expected {}..={}", k / n, k % n, values.as_slice()[k], lo[k], hi[k]));
        }
    }
    same(&t, &m)
}

const ALPHA: [f32; 6] = [0., 1., 2., 4., -3., 0.5];
const WIDE: [f32; 8] = [0.1, -0.7, 1e-20, 3e7, -1e10, 1e30, 0.3333, -2.5e-3];

fn main() {
    run("c28", |c| {
        let bins: Vec<usize> = (1..=c.pick(12, 20)).collect();
        for len in 1..=c.pick(4, 5) {
            for code in lists(len, &[0, 1, 2, 3, 4, 5]) {
                c.case("alphabet", || format!("{code:?}"), |c| {
                    c.state(&code);
                    let data: Vec<f32> = code.iter().map(|k| ALPHA[*k]).collect();
                    for n in &bins { one(c, &data, *n, Prov::Own, 0).map_err(|e| format!("{n} bins: {e}"))?; }
                    one(c, &data, 0, Prov::Own, 3)
                });
            }
        }
        for len in 1..=3 {
            for code in lists(len, &[0, 1, 2, 3, 4, 5, 6, 7]) {
                c.case("wide values", || format!("{code:?}"), |c| {
                    c.state(&(&code, 1));
                    let data: Vec<f32> = code.iter().map(|k| WIDE[*k]).collect();
                    for n in &bins { one(c, &data, *n, Prov::Mid, 0).map_err(|e| format!("{n} bins: {e}"))?; }
                    Ok(())
                });
            }
        }
        // every bin count with all edges and midpoints as data
        let counts: Vec<usize> = (1..=c.pick(130, 600)).chain([255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 32768, 65535, 65536, 65537, 70000]).collect();
        for n in counts {
            for (base, step) in [(0f32, 1f32), (-7., 2.), (100., 0.25), (0., 0.1), (-1., 1e-3), (5., 1e5)] {
                c.case("edges", || format!("{n} bins from {base} by {step}"), |c| {
                    c.state(&(n, step.to_bits()));
                    let mut data: Vec<f32> = (0..=n).map(|i| base + i as f32 * step).collect();
                    data.extend((0..n).map(|i| base + (i as f32 + 0.5) * step));
                    data.extend((0..n).filter(|i| i % 3 == 0).map(|i| base + (i as f32 + 0.75) * step));
                    one(c, &data, n, FEW_PROV[n % 3], n % 3)?;
                    data.reverse();
                    one(c, &data, n, Prov::Own, 0)
                });
            }
        }
        for n in lengths(c, 1) {
            if n > 1 << 18 { continue; }
            c.case("long", || format!("{n} values"), |c| {
                c.state(&("long", n));
                let data: Vec<f32> = (0..n).map(|i| ((i * 7919) % 1024) as f32).collect();
                for k in [1, 2, 7, 10, 16, 64] { one(c, &data, k, Prov::Own, 0)?; }
                one(c, &vec![3.25; n], 5, Prov::Own, 0)
            });
        }
        for prov in ALL_PROV {
            for form in 0..4 {
                for len in [1usize, 2, 3, 7] {
                    c.case("forms", || format!("{prov:?} form {form} length {len}"), |c| {
                        c.state(&(prov, form, len));
                        let data: Vec<f32> = (0..len).map(|i| ((i * 5) % 7) as f32 - 2.).collect();
                        one(c, &data, 4, prov, form)?;
                        let pts: Vec<(f32, f32)> = (0..len).map(|i| (((i * 5) % 7) as f32, ((i * 3) % 4) as f32)).collect();
                        two(c, &pts, 4, prov, form)
                    });
                }
            }
        }
        // two dimensions: all point lists over a grid
        let k = c.pick(3, 4);
        let axis = [0., 1., 3., -2.];
        let pts: Vec<(f32, f32)> = (0..k).flat_map(|i| (0..k).map(move |j| (axis[i], axis[j] * 2. + 1.))).collect();
        let sel: Vec<usize> = (0..pts.len()).collect();
        for len in 1..=c.pick(4, 4) {
            for code in lists(len, &sel) {
                c.case("2d alphabet", || format!("{code:?}"), |c| {
                    c.state(&(2, &code));
                    let data: Vec<(f32, f32)> = code.iter().map(|k| pts[*k]).collect();
                    for n in [1, 2, 3, 4, 5] { two(c, &data, n, Prov::Own, 0).map_err(|e| format!("{n} bins: {e}"))?; }
                    Ok(())
                });
            }
        }
        // many bins in two dimensions: the diagonals and the border
        for n in [25usize, 31, 32, 33, 40, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025] {
            for (sx, sy) in [(1f32, 1f32), (2., 0.5), (0.1, 7.)] {
                c.case("2d many bins", || format!("{n} bins, steps {sx} {sy}"), |c| {
                    c.state(&(n, sx.to_bits(), sy.to_bits(), 3));
                    let at = |i: usize, j: usize| ((i as f32 + 0.5) * sx, (j as f32 + 0.5) * sy);
                    let mut data = vec![(0., 0.), (n as f32 * sx, n as f32 * sy), at(n / 2, n / 3)];
                    for i in 0..n {
                        data.extend([at(i, i), at(i, n - 1 - i), at(i, 0), at(n - 1, i), at(i, n / 2), at(i, i * 7 % n)]);
                    }
                    two(c, &data, n, FEW_PROV[n % 3], n % 3)
                });
            }
        }
        for n in 1..=c.pick(24, 60) {
            for (sx, sy) in [(1f32, 1f32), (2., 0.5), (0.1, 7.), (1., 0.)] {
                c.case("2d edges", || format!("{n} bins, steps {sx} {sy}"), |c| {
                    c.state(&(n, sx.to_bits(), sy.to_bits()));
                    let mut data = vec![];
                    for i in 0..=n { for j in 0..=n {
                        data.push((i as f32 * sx - 3., j as f32 * sy + 1.));
                        if i < n && j < n && (i + 2 * j) % 3 == 0 { data.push(((i as f32 + 0.5) * sx - 3., (j as f32 + 0.5) * sy + 1.)); }
                    } }
                    two(c, &data, n, FEW_PROV[n % 3], n % 3)
                });
            }
        }
        // more values in one bin than a single-precision counter can hold
        for extra in [0usize, 6, 1 << 12] {
            c.case("many in one bin", || format!("2^24 + {extra} values"), |c| {
                c.ticks(2);
                let n = (1usize << 24) + extra;
                let mut v = vec![1f32; n];
                v.extend([0., 0., 3.]);
                let (values, _) = ok("histogram", || histogram(Tensor::from(v), 3))?;
                ctx_err("histogram", same(&values, &M::new(&[3], vec![2., n as f32, 1.])))?;
                let mut v = vec![1f32; 2 * n];
                v.extend([0., 0., 0., 2., 2., 2.]);
                let len = v.len() / 2;
                let (values, _, _) = ok("histogram2d", || histogram2d(Tensor::from_vec(v, [len, 2]), 2))?;
                ctx_err("histogram2d", same(&values, &M::new(&[2, 2], vec![1., 0., 1., (n + 1) as f32])))
            });
        }
        for n in [63usize, 64, 65, 1000, 5000, 65535, 65536, 65537] {
            c.case("2d long", || format!("{n} points"), |c| {
                c.state(&("2dlong", n));
                let data: Vec<(f32, f32)> = (0..n).map(|i| (((i * 7919) % 256) as f32, ((i * 31) % 128) as f32)).collect();
                for k in [1, 2, 10, 16] { two(c, &data, k, Prov::Own, 0)?; }
                Ok(())
            });
        }
        c.case("refused", || "no bins, wrong ranks".into(), |c| {
            c.tick();
            refused("0 bins", || histogram(Tensor::from([1f32, 2.]), 0))?;
            refused("0 bins", || HistArgs::new().n_bins(0))?;
            refused("0 bins", || histogram2d(Tensor::from([[1f32, 2.]]), 0))?;
            refused("0 bins", || Hist2Args::new().n_bins(0))?;
            refused("rank 2", || histogram(Tensor::from([[1f32, 2.]]), 3))?;
            refused("rank 1", || histogram2d(Tensor::from([1f32, 2.]), 3))?;
            refused("3 columns", || histogram2d(Tensor::from([[1f32, 2., 3.]]), 3))
        });
    });
}
