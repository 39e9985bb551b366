//! C23: seeded random numbers.
use essay_tensor::init::{random_normal, random_uniform, Normal, Uniform};
use essay_tensor::random::{random_seed, Rand32, Rand64};
use essay_tensor::tensor::Tensor;
use mc::*;

/// The documented generators, written down independently.
#[derive(Clone)]
struct R32(u64);

impl R32 {
    const A: u64 = 0x4822581B885237D5;
    const C: u64 = 0x6ED29E641A5F9CE5;
    fn next(&mut self) -> u32 {
        self.0 = self.0.wrapping_mul(Self::A).wrapping_add(Self::C);
        let r = (self.0 >> 32) as u32;
        (r ^ (r >> 16)).wrapping_mul(0x8A53002D)
    }
    fn str(s: &str) -> u64 {
        s.bytes().fold(0, |h: u64, b| h.wrapping_mul(Self::A).wrapping_add(Self::C).wrapping_add(b as u64))
    }
}

#[derive(Clone)]
struct R64(u128);

impl R64 {
    const A: u128 = 0xACAEAEFB4BF4A6A78B6E278B66409E7D;
    const C: u128 = 0x351402A3544A25016AEE39FBBADBB38D;
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(Self::A).wrapping_add(Self::C);
        let r = (self.0 >> 32) as u64;
        (r ^ (r >> 32)).wrapping_mul(0xA18E4C689403AE2D)
    }
    fn str(s: &str) -> u128 {
        s.bytes().fold(0, |h: u128, b| h.wrapping_mul(Self::A).wrapping_add(Self::C).wrapping_add(b as u128))
    }
}

fn inv64(a: u64) -> u64 {
    let mut x = a;
    for _ in 0..7 {
        x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x)));
    }
    x
}

fn inv128(a: u128) -> u128 {
    let mut x = a;
    for _ in 0..8 {
        x = x.wrapping_mul(2u128.wrapping_sub(a.wrapping_mul(x)));
    }
    x
}

/// A seed whose first output is r, with the given low state bits.
fn seed32(r: u32, low: u32) -> u64 {
    let m = inv64(0x8A53002D) as u32;
    let y = r.wrapping_mul(m);
    let x = y ^ (y >> 16);
    let s = (x as u64) << 32 | low as u64;
    s.wrapping_sub(R32::C).wrapping_mul(inv64(R32::A))
}

fn seed64(r: u64, high: u32, low: u32) -> u128 {
    let y = r.wrapping_mul(inv64(0xA18E4C689403AE2D));
    let x = y ^ (y >> 32);
    let s = (high as u128) << 96 | (x as u128) << 32 | low as u128;
    s.wrapping_sub(R64::C).wrapping_mul(inv128(R64::A))
}

fn uni32(r: u32) -> f64 {
    r as f64 / u32::MAX as f64
}

fn uni64(r: u64) -> f64 {
    r as f64 / u64::MAX as f64
}

fn normal_of(a: f64, b: f64) -> f64 {
    (-2. * a.ln()).sqrt() * (std::f64::consts::TAU * b).cos()
}

fn seq32(c: &mut Ctx, seed: u64, n: usize) -> R {
    let (mut m, mut g) = (R32(seed), Rand32(seed));
    c.state(&(32, seed));
    c.ticks(3 * n as u64);
    for i in 0..n {
        let (w, got) = (m.next(), g.next());
        if w != got || g.0 != m.0 {
            return Err(format!("draw {i}: {got}, expected {w}"));
        }
    }
    let (mut m, mut g, mut h) = (R32(seed), Rand32(seed), Rand32(seed));
    for i in 0..n {
        let got = ok("next_uniform", || g.next_uniform())?;
        let r = m.next();
        if !(0. ..=1.).contains(&got) || (got as f64 - uni32(r)).abs() > 2e-7 {
            return Err(format!("uniform draw {i}: {got}, expected {}", uni32(r)));
        }
        let again = Rand32(h.0).next_uniform();
        if again != got || h.next_uniform() != got {
            return Err(format!("uniform draw {i}: {again} at the second time, {got} at the first"));
        }
    }
    let (mut m, mut g) = (R32(seed), Rand32(seed));
    for i in 0..n {
        let got = ok("next_normal", || g.next_normal())?;
        let (a, b) = (uni32(m.next()), uni32(m.next()));
        check_normal(i, got as f64, a, b, 2e-5)?;
        if g.0 != m.0 {
            return Err(format!("normal draw {i}: the state is {}, expected {}", g.0, m.0));
        }
    }
    Ok(())
}

fn check_normal(i: usize, got: f64, a: f64, b: f64, tol: f64) -> R {
    if !got.is_finite() || got.abs() > 60. {
        return Err(format!("normal draw {i} of uniforms {a} {b} is {got}"));
    }
    // ill-conditioned close to 0 and 1
    if a > 1e-4 && a < 0.999 {
        let want = normal_of(a, b);
        if (got - want).abs() > tol * (1. + want.abs()) {
            return Err(format!("normal draw {i} of uniforms {a} {b} is {got}, expected {want}"));
        }
    }
    Ok(())
}

fn seq64(c: &mut Ctx, seed: u128, n: usize) -> R {
    let (mut m, mut g) = (R64(seed), Rand64(seed));
    c.state(&(64, seed));
    c.ticks(3 * n as u64);
    for i in 0..n {
        let (w, got) = (m.next(), g.next());
        if w != got || g.0 != m.0 {
            return Err(format!("draw {i}: {got}, expected {w}"));
        }
    }
    let (mut m, mut g) = (R64(seed), Rand64(seed));
    for i in 0..n {
        let got = ok("next_uniform", || g.next_uniform())?;
        let want = uni64(m.next());
        if !(0. ..=1.).contains(&got) || (got - want).abs() > 1e-9 {
            return Err(format!("uniform draw {i}: {got}, expected {want}"));
        }
    }
    let (mut m, mut g) = (R64(seed), Rand64(seed));
    for i in 0..n {
        let got = ok("next_normal", || g.next_normal())?;
        let (a, b) = (uni64(m.next()), uni64(m.next()));
        check_normal(i, got, a, b, 1e-6)?;
        if g.0 != m.0 {
            return Err(format!("normal draw {i}: the state is {}, expected {}", g.0, m.0));
        }
    }
    Ok(())
}

fn strings(c: &mut Ctx, s: &str) -> R {
    c.ticks(2);
    c.state(&s);
    let (a, b) = (Rand32::from(s), Rand64::from(s));
    if a.0 != R32::str(s) || b.0 != R64::str(s) {
        return Err(format!("seeds {} {}, expected {} {}", a.0, b.0, R32::str(s), R64::str(s)));
    }
    Ok(())
}

fn tensor(c: &mut Ctx, seed: u64, d: &[usize], mean: f32, std: f32) -> R {
    c.state(&("tensor", seed, d, mean.to_bits(), std.to_bits()));
    c.ticks(6);
    let n = size(d);
    let mut g = Rand32(seed);
    let p: Vec<f32> = (0..n).map(|_| g.next_normal()).collect();
    let mut g = Rand32(seed);
    let u: Vec<f32> = (0..n).map(|_| g.next_uniform()).collect();
    let want: Vec<f64> = p.iter().map(|p| mean as f64 + *p as f64 * std as f64).collect();
    let opts = [Normal::seed(seed).with_mean(mean).with_std(std), Normal::mean(mean).with_std(std).with_seed(seed), Normal::from((mean, std)).with_seed(seed), Normal::std(std).with_seed(seed).with_mean(mean)];
    for o in opts {
        let r = ok("random_normal", || random_normal(shape(d), o))?;
        let q = ok("random_normal", || Tensor::random_normal(shape(d), o))?;
        if r != q {
            return Err("two random tensors of the same seed differ".into());
        }
        let tol = |w: f64, p: f32| 4e-7 * (w.abs() + mean.abs() as f64 + (p * std).abs() as f64);
        let k = std::cell::Cell::new(0);
        same_by(&r, d, &want, |a, w| { let i = k.get(); k.set(i + 1); (*a as f64 - w).abs() <= tol(*w, p[i]) })?;
        if mean == 0. && std == 1. {
            let e = ok("random_normal", || random_normal(shape(d), Some(seed)))?;
            if e != r {
                return Err("Some(seed) differs from Normal::seed(seed)".into());
            }
        }
    }
    // uniform: the bounds are applied to the same draws whichever bounds they are
    let (lo, hi) = (mean, mean + std);
    let base = ok("random_uniform", || random_uniform(shape(d), Uniform::seed(seed)))?;
    if base.as_slice() != &p[..] && base.as_slice() != &u[..] {
        return Err(format!("the uniform tensor of seed {seed} does not consist of the draws of its generator: {base:?}"));
    }
    let opts = [Uniform::seed(seed).with_min(lo).with_max(hi), Uniform::min(lo).with_max(hi).with_seed(seed), Uniform::from((lo, hi)).with_seed(seed), Uniform::max(hi).with_min(lo).with_seed(seed)];
    for o in opts {
        let r = ok("random_uniform", || random_uniform(shape(d), o))?;
        if r != ok("random_uniform", || Tensor::random_uniform(shape(d), o))? {
            return Err("two random tensors of the same seed differ".into());
        }
        let want: Vec<f64> = base.iter().map(|p| lo as f64 + *p as f64 * (hi as f64 - lo as f64).max(0.)).collect();
        same_by(&r, d, &want, |a, w| (*a as f64 - w).abs() <= 1e-5 * (w.abs() + lo.abs() as f64 + hi.abs() as f64 + 1e-3)).map_err(|e| format!("uniform {lo} {hi}: {e}"))?;
    }
    Ok(())
}

/// A seeded generator is not influenced by anything drawn in between.
fn mixed(c: &mut Ctx, seed: u64, ops: &[usize]) -> R {
    c.ticks(ops.len() as u64);
    c.state(&("mixed", seed, ops));
    let (mut g, mut m) = (Rand32(seed), R32(seed));
    let (mut h, mut k) = (Rand64(seed as u128), R64(seed as u128));
    for op in ops {
        match op {
            0 => if g.next() != m.next() { return Err("32-bit draw".into()) },
            1 => if h.next() != k.next() { return Err("64-bit draw".into()) },
            2 => { random_seed(seed); }
            3 => { Rand32::new().next(); }
            4 => { random_normal([2], None::<u64>.into_normal()); }
            5 => { let mut o = Rand32(seed); o.next(); }
            _ => {
                let (a, b) = (g.0, h.0);
                let r = std::thread::spawn(move || { random_seed(7); (Rand32(a).next(), Rand64(b).next(), Rand64::new().next()) }).join().unwrap();
                if r.0 != m.clone().next() || r.1 != k.clone().next() {
                    return Err("draw on another thread".into());
                }
            }
        }
    }
    if g.next() != m.next() || h.next() != k.next() {
        return Err("last draws".into());
    }
    let a = random_normal([3], Normal::seed(seed));
    let b = std::thread::spawn(move || random_normal([3], Normal::seed(seed))).join().unwrap();
    if a != b {
        return Err("the tensor of one seed differs between threads".into());
    }
    Ok(())
}

trait IntoNormal { fn into_normal(self) -> Normal; }
impl IntoNormal for Option<u64> { fn into_normal(self) -> Normal { self.into() } }

fn seeds(c: &Ctx) -> Vec<u64> {
    let mut v: Vec<u64> = (0..c.pick(2000, 100_000)).collect();
    for p in 0..64 {
        for d in [0u64, 1, 2] {
            v.push((1u64 << p).wrapping_sub(d));
            v.push((1u64 << p).wrapping_add(d));
            v.push(!(1u64 << p));
        }
    }
    for r in [0u32, 1, 2, 3, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 0xff_ffff, 0x100_0000] {
        for low in [0u32, 1, 0x8000_0000, u32::MAX] {
            let s = seed32(r, low);
            v.push(s);
            // the extreme output as second draw
            v.push(s.wrapping_sub(R32::C).wrapping_mul(inv64(R32::A)));
        }
    }
    v.sort();
    v.dedup();
    v
}

fn main() {
    run("C23", |c| {
        for s in seeds(c) {
            c.case("seed 32", || format!("{s}"), |c| seq32(c, s, 64));
            for hi in [0u128, 1, u64::MAX as u128] {
                c.case("seed 64", || format!("{hi} {s}"), |c| seq64(c, hi << 64 | s as u128, 24));
            }
        }
        for r in 0..64 {
            for d in [0u64, 1, 2, 3] {
                for r in [(1u64 << r).wrapping_sub(d), (1u64 << r) + d, u64::MAX - d, u64::MAX - (1 << r)] {
                    for (h, l) in [(0, 0), (1, 1), (u32::MAX, u32::MAX)] {
                        c.case("extreme 64", || format!("{r} {h} {l}"), |c| {
                            let s = seed64(r, h, l);
                            if Rand64(s).next() != r { return Err(format!("first output {}, expected {r}", Rand64(s).next())); }
                            seq64(c, s, 3)?;
                            seq64(c, s.wrapping_sub(R64::C).wrapping_mul(inv128(R64::A)), 3)
                        });
                    }
                }
            }
        }
        // every 32-bit output
        let full = !cfg!(debug_assertions) || !c.quick();
        let block = 1u64 << 20;
        for b in 0..(1u64 << 32) / block {
            if !full && b % 64 != 0 && b < (1 << 12) - 4 { continue; }
            c.case("all outputs", || format!("block {b}"), |c| {
                c.ticks(block);
                let ainv = inv64(R32::A);
                for x in b * block..(b + 1) * block {
                    let s = (x << 32).wrapping_sub(R32::C).wrapping_mul(ainv);
                    let u = Rand32(s).next_uniform();
                    if !(u >= 0. && u <= 1.) {
                        return Err(format!("seed {s}: uniform {u}"));
                    }
                }
                Ok(())
            });
        }
        // normal draws for every output close to the ends and the seed grid
        for r in (0..c.pick(1u32 << 16, 1 << 24)).step_by(1 << 12) {
            c.case("normal low", || format!("{r}.."), |c| {
                for k in r..r + (1 << 12) {
                    for q in [k, u32::MAX - k] {
                        c.tick();
                        let s = seed32(q, 0);
                        for s in [s, s.wrapping_sub(R32::C).wrapping_mul(inv64(R32::A))] {
                            let n = Rand32(s).next_normal();
                            if !n.is_finite() { return Err(format!("seed {s}: normal {n}")); }
                        }
                    }
                }
                Ok(())
            });
        }
        c.case("strings", || "empty".into(), |c| strings(c, ""));
        for a in 0..128u8 {
            c.case("strings", || format!("{a}"), |c| {
                strings(c, std::str::from_utf8(&[a]).unwrap())?;
                for b in 0..128u8 {
                    strings(c, std::str::from_utf8(&[a, b]).unwrap())?;
                    strings(c, std::str::from_utf8(&[a, b, 0, a]).unwrap())?;
                }
                Ok(())
            });
        }
        for s in ["é", "日本語", "a longer seed string with several words", "\u{10ffff}"] {
            c.case("strings", || s.into(), |c| strings(c, s));
        }
        for seed in [0u64, 1, 2, 10, 100, 12345, u64::MAX, 1 << 63] {
            for d in small_shapes(Tier::Quick, 0, 3).into_iter().chain([vec![2, 1, 2, 1], vec![1, 2, 1, 2, 2], vec![2, 1, 2, 1, 1, 2], vec![100], vec![1000], vec![4097]]) {
                for (m, s) in [(0., 1.), (5., 1.), (0., 3.), (-2.5, 0.25), (100., 10.)] {
                    c.case("tensor", || format!("{seed} {d:?} {m} {s}"), |c| tensor(c, seed, &d, m, s));
                }
            }
        }
        for n in 0..=c.pick(4, 6) {
            for ops in lists(n, &[0, 1, 2, 3, 4, 5, 6]) {
                for seed in [3u64, u64::MAX - 5] {
                    c.case("mixed", || format!("{seed} {ops:?}"), |c| mixed(c, seed, &ops));
                }
            }
        }
        c.case("uniform tensor bounds", || "random_uniform([64], Uniform::seed(100)) within 0..=1".into(), |_| {
            let t = random_uniform([64], Uniform::seed(100));
            match t.iter().find(|v| !(0. ..=1.).contains(*v)) {
                Some(v) => Err(format!("the uniform tensor with bounds 0 and 1 contains {v}")),
                None => Ok(()),
            }
        });
    });
}
