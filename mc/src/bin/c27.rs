//! C27: magnitude spectrum and framing.
use essay_tensor::signal::{frame, rfft_norm, FftArg, FftOpt};
use mc::*;

/// |DFT| of the Hann-windowed row, in double precision.
fn spectrum(row: &[f32]) -> Vec<f64> {
    let n = row.len();
    let pi = std::f64::consts::PI;
    let w: Vec<f64> = (0..n).map(|i| row[i] as f64 * (pi * i as f64 / n as f64).sin().powi(2)).collect();
    (0..n / 2 + 1).map(|k| {
        let (mut re, mut im) = (0f64, 0f64);
        for (i, x) in w.iter().enumerate() {
            let a = -2. * pi * ((k * i) % n) as f64 / n as f64;
            re += x * a.cos();
            im += x * a.sin();
        }
        (re * re + im * im).sqrt()
    }).collect()
}

fn values(kind: usize, i: usize, n: usize) -> f32 {
    match kind {
        0 => if i == n / 2 { 1. } else { 0. },
        1 => 1.,
        2 => if i % 2 == 0 { 1. } else { -1. },
        3 => ((i * 7919 + 13) % 101) as f32 / 50. - 1.,
        4 => (i as f32 * 0.7).sin() * 1000.,
        _ => ((i * 31 + 7) % 17) as f32 * 1e-3,
    }
}

fn fft(c: &mut Ctx, m: &M<f32>, prov: Prov, len_out: Option<usize>, form: usize) -> R {
    c.tick();
    let t = build(m, prov);
    let got = ok("rfft_norm", || match (len_out, form) {
        (None, 0) => rfft_norm(&t, ()),
        (None, _) => rfft_norm(t.clone(), FftArg::default()),
        (Some(n), 0) => rfft_norm(&t, ().fft_length(n)),
        (Some(n), _) => rfft_norm(t.clone(), FftArg::default().fft_length(n + 3).fft_length(n)),
    })?;
    let n = *m.dims.last().unwrap();
    let out = len_out.unwrap_or(n / 2 + 1);
    let mut dims = m.dims.clone();
    *dims.last_mut().unwrap() = out;
    let mut want: Vec<(f64, f64)> = vec![];
    for row in m.data.chunks(n) {
        let mut s = spectrum(row);
        let scale: f64 = row.iter().map(|v| v.abs() as f64).sum::<f64>().max(1e-12);
        let full = s.len();
        s.resize(out.max(full), 0.);
        for (k, v) in s.iter().take(out).enumerate() {
            want.push((*v, if k < full { 2e-5 * scale } else { 0. }));
        }
    }
    c.outcome(&(dims.clone(), want.len()));
    same_by(&got, &dims, &want, |a, b| (*a as f64 - b.0).abs() <= b.1)?;
    same(&t, m)
}

fn frames(c: &mut Ctx, m: &M<f32>, prov: Prov, len: usize, step: usize) -> R {
    c.tick();
    let t = build(m, prov);
    let n = m.dims[0];
    let row: usize = m.dims[1..].iter().product();
    if len > n {
        // there is no full window
        return match catch(|| frame(&t, len, step)) {
            Err(_) => Ok(()),
            Ok(t) if t.size() == 0 => Ok(()),
            Ok(t) => Err(format!("{:?} returned although no full window exists", dims_of(&t))),
        };
    }
    let got = ok("frame", || frame(&t, len, step))?;
    let mut data = vec![];
    let mut k = 0;
    while k * step + len <= n {
        data.extend_from_slice(&m.data[k * step * row..(k * step + len) * row]);
        k += 1;
    }
    let mut dims = vec![k, len];
    dims.extend(&m.dims[1..]);
    c.outcome(&dims);
    same(&got, &M::new(&dims, data))?;
    same(&t, m)
}

fn main() {
    run("c27", |c| {
        // all vectors over a small alphabet
        for n in 1..=c.pick(6, 8) {
            for code in lists(n, &[0, 1, 2]) {
                c.case("fft alphabet", || format!("{code:?}"), |c| {
                    c.state(&code);
                    let data: Vec<f32> = code.iter().map(|v| [0., 1., -2.][*v]).collect();
                    fft(c, &M::new(&[n], data), Prov::Own, None, 0)
                });
            }
        }
        // every length
        let lens: Vec<usize> = (1..=c.pick(140, 400)).chain(c.pick(vec![251, 255, 256, 257, 499, 512, 1000, 1021, 1024], vec![511, 512, 513, 1000, 1021, 1024, 1999, 2047, 2048, 2049, 4096])).collect();
        for n in lens {
            for kind in 0..6 {
                c.case("fft length", || format!("length {n}, signal {kind}"), |c| {
                    c.state(&(n, kind));
                    fft(c, &M::new(&[n], (0..n).map(|i| values(kind, i, n)).collect()), if kind == 3 { Prov::Mid } else { Prov::Own }, None, kind % 2)
                });
            }
        }
        // batches and provenances
        for d in small_shapes(c.tier, 1, 6) {
            for prov in ALL_PROV {
                c.case("fft batch", || format!("{d:?} {prov:?}"), |c| {
                    c.state(&(&d, prov));
                    fft(c, &M::new(&d, (0..size(&d)).map(|i| values(3, i, 0)).collect()), prov, None, 0)
                });
            }
        }
        for (rows, n) in [(2usize, 64usize), (3, 100), (5, 33), (17, 16), (64, 8), (100, 5), (257, 4), (300, 2), (33, 33)] {
            for extra in [vec![], vec![2], vec![2, 1]] {
                let mut d: Vec<usize> = extra;
                d.extend([rows, n]);
                c.case("fft batch long", || format!("{d:?}"), |c| {
                    c.state(&d);
                    fft(c, &M::new(&d, (0..size(&d)).map(|i| values(4, i, 0)).collect()), Prov::OuterTail, None, 0)
                });
            }
        }
        // requested output lengths
        for n in 1..=c.pick(12, 24) {
            for out in 1..=2 * n + 3 {
                for pre in [vec![], vec![1], vec![2], vec![3, 2], vec![2, 1, 2]] {
                    for form in 0..2 {
                        let mut d = pre.clone();
                        d.push(n);
                        c.case("fft outputs", || format!("{d:?} to {out}, form {form}"), |c| {
                            c.state(&(&d, out));
                            fft(c, &M::new(&d, (0..size(&d)).map(|i| values(3, i, 0)).collect()), FEW_PROV[out % 3], Some(out), form)
                        });
                    }
                }
            }
        }
        // every output length of longer signals, relative to the default one
        let longs: Vec<usize> = (13..=c.pick(140, 300)).chain([255, 256, 257, 512, 1000, 1025]).collect();
        for n in longs {
            for (k, pre) in [vec![], vec![3]].into_iter().enumerate() {
                let mut d = pre;
                d.push(n);
                c.case("fft outputs long", || format!("{d:?}"), |c| {
                    let m = M::new(&d, (0..size(&d)).map(|i| values(3, i, 0)).collect());
                    fft(c, &m, FEW_PROV[n % 3], None, k)?;
                    let p2 = n.next_power_of_two();
                    for out in (1..=2 * n + 3).filter(|o| n <= 40 || [1, 2, n / 2 - 1, n / 2, n / 2 + 1, n / 2 + 2, n - 1, n, n + 1, p2 - 1, p2, p2 + 1, p2 / 2, p2 / 2 + 1, n / 2 + 7, n / 2 + 17, n - 9, 2 * n, 2 * n + 3].contains(o)) {
                        c.state(&(&d, out));
                        fft(c, &m, FEW_PROV[out % 3], Some(out), k).map_err(|e| format!("{out} values: {e}"))?;
                    }
                    Ok(())
                });
            }
        }
        for d in [[2usize, 17, 20], [40, 5, 33], [3, 100, 8], [300, 2, 3]] {
            for out in [1, d[2] / 2, d[2] / 2 + 1, d[2] / 2 + 2, d[2], d[2] + 1, 3 * d[2]] {
                c.case("fft outputs batch", || format!("{d:?} to {out}"), |c| {
                    c.state(&(d, out));
                    fft(c, &M::new(&d, (0..size(&d)).map(|i| values(4, i, 0)).collect()), Prov::Mid, Some(out), 0)
                });
            }
        }
        // framing
        let top = c.pick(16, 30);
        for n in 1..=top {
            for len in 1..=n + 2 {
                for step in 1..=n + 2 {
                    for rest in [vec![], vec![1], vec![3], vec![2, 2]] {
                        if !rest.is_empty() && n > 9 && c.quick() { continue; }
                        let mut d = vec![n];
                        d.extend(&rest);
                        for prov in FEW_PROV {
                            c.case("frame", || format!("{d:?} {prov:?} length {len} step {step}"), |c| {
                                c.state(&(&d, len, step));
                                frames(c, &M::seq(&d, 1), prov, len, step)
                            });
                        }
                    }
                }
            }
        }
        for n in c.pick(vec![63, 64, 65, 100, 255, 256, 257, 1000], vec![100, 255, 256, 257, 1000, 4096, 65537]) {
            for len in [1, 2, 3, 8, 16, 50, 63, 64, n - 1, n] {
                for step in [1, 2, 3, 7, 8, 16, 32, 50, 64, n - 1, n] {
                    if len > n || (n - len) / step * len > 3_000_000 { continue; }
                    c.case("frame long", || format!("{n} length {len} step {step}"), |c| {
                        c.state(&(n, len, step));
                        frames(c, &M::seq(&[n], 1), Prov::Mid, len, step)?;
                        for rest in [&[3][..], &[17], &[2, 33], &[300]] {
                            if size(rest) * ((n - len) / step + 1) * len > 100_000 { continue; }
                            let mut d = vec![n];
                            d.extend(rest);
                            frames(c, &M::seq(&d, 1), Prov::OuterTail, len, step).map_err(|e| format!("{d:?}: {e}"))?;
                        }
                        Ok(())
                    });
                }
            }
        }
        for d in small_shapes(c.tier, 1, 5) {
            for (len, step) in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)] {
                c.case("frame shapes", || format!("{d:?} length {len} step {step}"), |c| {
                    c.state(&(&d, len, step, 1));
                    frames(c, &M::seq(&d, 1), Prov::Nested, len, step)
                });
            }
        }
        c.case("frame step 0", || "step 0 is refused".into(), |c| {
            c.tick();
            refused("frame", || frame(essay_tensor::tensor::Tensor::from([1f32, 2., 3.]), 2, 0))
        });
    });
}
