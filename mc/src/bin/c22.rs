//! C22: spaced vectors and stepped ranges.
use essay_tensor::init;
use essay_tensor::tensor::Tensor;
use mc::*;

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Kind {
    Lin,
    Log,
    Geom,
    LogBase(u8),
}

const BASES: [f32; 4] = [10., 2., 1.5, 100.];

/// The k-th of n values, and the scale its rounding error is relative to.
fn value(kind: Kind, s: f32, e: f32, k: usize, n: usize) -> (f64, f64) {
    let (s, e) = (s as f64, e as f64);
    let f = if n > 1 { k as f64 / (n - 1) as f64 } else { 0. };
    let lerp = |a: f64, b: f64| a + (b - a) * f;
    match kind {
        Kind::Lin => (lerp(s, e), s.abs().max(e.abs())),
        Kind::Log | Kind::LogBase(_) => {
            let base = if let Kind::LogBase(b) = kind { BASES[b as usize] as f64 } else { 10. };
            let v = base.powf(lerp(s, e));
            (v, v * (1. + s.abs().max(e.abs()) * base.ln()))
        }
        Kind::Geom => {
            let v = lerp(s.ln(), e.ln()).exp();
            (v, v * (1. + s.ln().abs().max(e.ln().abs())))
        }
    }
}

fn calls(kind: Kind, s: &Tensor, e: &Tensor, n: usize) -> Vec<(&'static str, Box<dyn Fn() -> Tensor>)> {
    let mut v: Vec<(&'static str, Box<dyn Fn() -> Tensor>)> = Vec::new();
    macro_rules! add { ($name:literal, |$a:ident, $b:ident| $x:expr) => {{
        let ($a, $b) = (s.clone(), e.clone());
        v.push(($name, Box::new(move || $x)));
    }} }
    match kind {
        Kind::Lin => {
            add!("linspace", |a, b| init::linspace(&a, &b, n));
            add!("a.linspace", |a, b| a.linspace(&b, n));
        }
        Kind::Log => {
            add!("logspace", |a, b| init::logspace(&a, &b, n));
            add!("a.logspace", |a, b| a.logspace(&b, n));
            add!("logspace_opt None", |a, b| init::logspace_opt(&a, &b, n, None));
        }
        Kind::LogBase(i) => {
            let base = BASES[i as usize];
            add!("logspace_opt base", |a, b| init::logspace_opt(&a, &b, n, base));
            add!("logspace_opt Some", |a, b| init::logspace_opt(&a, &b, n, Some(base)));
        }
        Kind::Geom => {
            add!("geomspace", |a, b| init::geomspace(&a, &b, n));
            add!("a.geomspace", |a, b| a.geomspace(&b, n));
        }
    }
    v
}

fn spaced(c: &mut Ctx, kind: Kind, d: &[usize], s: &[f32], e: &[f32], n: usize, p: Prov) -> R {
    let (st, et) = (build(&M::new(d, s.to_vec()), p), build(&M::new(d, e.to_vec()), Prov::Own));
    c.state(&(kind, d, s.iter().chain(e).map(|v| v.to_bits()).collect::<Vec<_>>(), n));
    let batch = s.len();
    for (name, f) in calls(kind, &st, &et, n) {
        c.tick();
        if d.len() == 6 && !(kind == Kind::Geom && batch == 1) {
            refused(name, &f)?;
            continue;
        }
        let r = ok(name, &f)?;
        let mut dims = d.to_vec();
        dims.insert(0, n);
        let got = dims_of(&r);
        // a single geometric range may come without the unit axes
        if got != dims && !(kind == Kind::Geom && batch == 1 && got == [n]) {
            return Err(format!("{name}: dimensions {got:?}, expected {dims:?}"));
        }
        if r.as_slice().len() != batch * n {
            return Err(format!("{name}: {} elements", r.as_slice().len()));
        }
        for k in 0..n {
            for b in 0..batch {
                let (want, scale) = value(kind, s[b], e[b], k, n);
                let g = r[k * batch + b] as f64;
                if !((g - want).abs() <= 1.5e-6 * scale + 1e-40) {
                    return Err(format!("{name}: step {k} of {n}, batch {b} ({}..{}) is {g}, expected {want}", s[b], e[b]));
                }
            }
        }
        c.outcome(&(got, n));
    }
    same(&st, &M::new(d, s.to_vec()))?;
    same(&et, &M::new(d, e.to_vec()))
}

fn scalars(c: &mut Ctx, s: f32, e: f32, n: usize) -> R {
    // scalar argument forms
    c.ticks(3);
    let r = ok("linspace", || init::linspace(s, e, n))?;
    if dims_of(&r) != [n] {
        return Err(format!("dimensions {:?}", dims_of(&r)));
    }
    for k in 0..n {
        let (want, scale) = value(Kind::Lin, s, e, k, n);
        if (r[k] as f64 - want).abs() > 1.5e-6 * scale {
            return Err(format!("linspace({s}, {e}, {n})[{k}] = {}", r[k]));
        }
    }
    if n > 0 && r[0] != s {
        return Err(format!("begins at {} instead of {s}", r[0]));
    }
    Ok(())
}

fn bad(c: &mut Ctx, kind: Kind, d: &[usize], s: &[f32], e: &[f32], n: usize) -> R {
    let (st, et) = (build(&M::new(d, s.to_vec()), Prov::Mid), build(&M::new(d, e.to_vec()), Prov::Own));
    for (name, f) in calls(kind, &st, &et, n) {
        c.tick();
        refused(name, f)?;
    }
    Ok(())
}

fn shapes_differ(c: &mut Ctx, kind: Kind, a: &[usize], b: &[usize]) -> R {
    let st = build(&M::new(a, vec![1.; size(a)]), Prov::Own);
    let et = build(&M::new(b, vec![2.; size(b)]), Prov::Own);
    for (name, f) in calls(kind, &st, &et, 3) {
        c.tick();
        refused(name, f)?;
    }
    Ok(())
}

fn arange(c: &mut Ctx, s: f32, e: f32, step: f32, exact: bool) -> R {
    c.state(&(s.to_bits(), e.to_bits(), step.to_bits()));
    c.ticks(2);
    let valid = step != 0. && (step > 0. && s <= e || step < 0. && e <= s);
    if !valid {
        refused("arange", || init::arange(s, e, step))?;
        return refused("Tensor::arange", || Tensor::arange(s, e, step));
    }
    let r = ok("arange", || init::arange(s, e, step))?;
    let r2 = ok("Tensor::arange", || Tensor::arange(s, e, step))?;
    if r2 != r {
        return Err("Tensor::arange differs from init::arange".into());
    }
    let v = r.as_slice();
    if dims_of(&r) != [v.len()] {
        return Err(format!("dimensions {:?} with {} elements", dims_of(&r), v.len()));
    }
    c.outcome(&v.len());
    let (sd, ed, td) = (s as f64, e as f64, step as f64);
    let n = ((ed - sd) / td).ceil().max(0.) as usize;
    // the count may only differ where rounding can move a value over the end
    let big = sd.abs().max(ed.abs());
    let slack = 1e-6 * big * (n as f64 + 1.);
    if exact && v.len() != n {
        return Err(format!("{} values, expected {n}", v.len()));
    }
    if !exact {
        let last = sd + td * v.len() as f64;
        let short = if td > 0. { last < ed - slack } else { last > ed + slack };
        if short {
            return Err(format!("ends early after {} values, expected {n}", v.len()));
        }
    }
    for (i, x) in v.iter().enumerate() {
        let want = sd + td * i as f64;
        if exact && *x as f64 != want || (*x as f64 - want).abs() > slack {
            return Err(format!("value {i} is {x}, expected {want}"));
        }
        if td > 0. && *x >= e || td < 0. && *x <= e {
            return Err(format!("value {i} is {x}, which is not before the end {e}"));
        }
    }
    if v.len() > 0 && v[0] != s {
        return Err(format!("begins at {}", v[0]));
    }
    Ok(())
}

fn main() {
    run("C22", |c| {
        let kinds = [Kind::Lin, Kind::Log, Kind::Geom, Kind::LogBase(1), Kind::LogBase(2), Kind::LogBase(3)];
        let ends = |k: Kind| -> Vec<f32> {
            match k {
                Kind::Lin => vec![-1000., -2.5, -1., 0., 0.1, 1., 3., 1e6],
                Kind::Geom => vec![1e-3, 0.5, 1., 2., 10., 1e5],
                _ => vec![-3., -1., 0., 0.5, 1., 2.],
            }
        };
        for kind in kinds {
            let v = ends(kind);
            for &s in &v {
                for &e in &v {
                    for n in 0..=c.pick(33, 100) {
                        if s <= e {
                            c.case("scalar", || format!("{kind:?} {s} {e} {n}"), |c| spaced(c, kind, &[], &[s], &[e], n, Prov::Own));
                        } else if n > 0 {
                            c.case("backwards", || format!("{kind:?} {s} {e} {n}"), |c| bad(c, kind, &[], &[s], &[e], n));
                        }
                        if kind == Kind::Lin && s <= e {
                            c.case("scalar forms", || format!("{s} {e} {n}"), |c| scalars(c, s, e, n));
                        }
                    }
                }
            }
            for d in small_shapes(c.tier, 1, 6) {
                let m = size(&d);
                let s: Vec<f32> = (0..m).map(|i| if kind == Kind::Geom { 0.25 * (1 + i % 5) as f32 } else { (i % 7) as f32 * 0.25 - 1. }).collect();
                let e: Vec<f32> = (0..m).map(|i| s[i] + (i * 3 % 5) as f32 * 0.5).collect();
                for n in [0, 1, 2, 3, 5, 8] {
                    for p in FEW_PROV {
                        c.case("batch", || format!("{kind:?} {d:?} {n} {p:?}"), |c| spaced(c, kind, &d, &s, &e, n, p));
                    }
                }
                if d.len() < 6 {
                    for pos in [0, m / 2, m - 1] {
                        let mut b = e.clone();
                        b[pos] = s[pos] * 0.5 - if kind == Kind::Geom { 0. } else { 4. };
                        c.case("backwards batch", || format!("{kind:?} {d:?} at {pos}"), |c| bad(c, kind, &d, &s, &b, 4));
                    }
                }
            }
            let all: Vec<Vec<usize>> = (0..=2).flat_map(|r| lists(r, &[1, 2, 3])).chain([vec![1, 1, 2], vec![2, 1, 1]]).collect();
            for a in &all {
                for b in &all {
                    if a != b {
                        c.case("shapes differ", || format!("{kind:?} {a:?} {b:?}"), |c| shapes_differ(c, kind, a, b));
                    }
                }
            }
            for n in lengths(c, 1) {
                if n > 70_000 { continue; }
                let (s, e) = if kind == Kind::Geom { ([1., 0.5], [100., 0.75]) } else { ([-1., 0.], [1., 2.]) };
                c.case("length", || format!("{kind:?} {n}"), |c| spaced(c, kind, &[2], &s, &e, n, Prov::Mid));
                c.case("length 1", || format!("{kind:?} {n}"), |c| spaced(c, kind, &[], &s[..1], &e[..1], n, Prov::Own));
                if n <= 300 {
                    let s: Vec<f32> = (0..n).map(|i| 0.25 + (i % 7) as f32 * 0.25).collect();
                    let e: Vec<f32> = (0..n).map(|i| s[i] + (i % 4) as f32 * 0.5).collect();
                    c.case("long batch", || format!("{kind:?} {n}"), |c| spaced(c, kind, &[n], &s, &e, 3, Prov::Mid));
                }
            }
        }
        // exactly representable ranges
        let lim = c.pick(10i32, 24);
        for s in -lim..=lim {
            for e in -lim..=lim {
                for st in -lim..=lim {
                    let (s, e, st) = (s as f32 * 0.25, e as f32 * 0.25, st as f32 * 0.25);
                    c.case("arange", || format!("{s} {e} {st}"), |c| arange(c, s, e, st, true));
                }
            }
        }
        for s in [0f32, -100., 1000., 65536.] {
            for n in lengths(c, 0) {
                if n > 20_000 { continue; }
                for st in [1f32, -1., 0.5, -0.5, 3., -3.] {
                    let e = s + n as f32 * st;
                    c.case("arange length", || format!("{s} {e} {st}"), |c| arange(c, s, e, st, true));
                    let e = e - st * 0.5;
                    if n > 0 {
                        c.case("arange length half", || format!("{s} {e} {st}"), |c| arange(c, s, e, st, true));
                    }
                }
            }
        }
        let odd = [0f32, 0.1, -0.1, 0.3, 1.7, -2.9, 10.01, 123.456, -77.7];
        for &s in &odd {
            for &e in &odd {
                for &st in &[0.1f32, -0.1, 0.37, -0.37, 1.3, -1.3, 5.5, -5.5, 1000., -1000.] {
                    c.case("arange rounded", || format!("{s} {e} {st}"), |c| arange(c, s, e, st, false));
                }
            }
        }
        // must end, by returning or by refusing
        for (s, e, st) in [
            (0f32, 1f32, 1e-3f32), (1., 2., 1e-9), (16777216., 16777220., 1.), (-16777216., -16777220., -1.), (1e30, 2e30, 1.), (-1e30, -2e30, -1.),
            (2., 1., -1e-9), (16777215., 16777225., 1.), (33554432., 33554440., 1.5), (0., 1e-30, 1e-33), (3e38, f32::MAX, 1e30), (-3e38, -f32::MAX, -1e30),
        ] {
            c.case("ends", || format!("{s} {e} {st}"), |c| {
                c.tick();
                if let Ok(r) = catch(|| init::arange(s, e, st)) {
                    for x in r.iter() {
                        if st > 0. && *x >= e || st < 0. && *x <= e {
                            return Err(format!("{x} is not before {e}"));
                        }
                    }
                }
                Ok(())
            });
        }
    });
}
