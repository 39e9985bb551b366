//! C29: option builders record exactly what was set.
use essay_opt::derive_opt;
use essay_tensor::init::{logspace, logspace_opt, random_normal, random_uniform, Normal, Uniform};
use essay_tensor::signal::{rfft_norm, FftArg, FftOpt};
use essay_tensor::stats::{histogram, histogram2d, Hist2Args, HistArgs};
use essay_tensor::tensor::Tensor;
use mc::*;

// ---- generated builders over every kind of field

#[derive_opt(WideOpt)]
#[derive(Clone, Debug, PartialEq)]
pub struct Wide {
    count: Option<usize>,
    name: Option<String>,
    ratio: Option<f64>,
    list: Option<Vec<u8>>,
    flag: bool,
    level: i32,
    total: usize,
    text: String,
}

impl Default for Wide {
    fn default() -> Self {
        Wide { count: Some(77), name: None, ratio: None, list: None, flag: true, level: -5, total: 3, text: "dflt".into() }
    }
}

const WIDE_FIELDS: usize = 8;

fn wide_set(w: impl WideOpt, f: usize, v: usize) -> Wide {
    match (f, v) {
        (0, _) => w.count(v * 10),
        (1, 0) => w.name("n0"),
        (1, _) => w.name(format!("n{v}")),
        (2, 0) => w.ratio(0.5f32),
        (2, _) => w.ratio(v as f64 + 0.25),
        (3, 0) => w.list([]),
        (3, _) => w.list(vec![v as u8, 9]),
        (4, _) => w.flag(v == 1),
        (5, _) => w.level(v as i32 * 7 - 7),
        (6, _) => w.total(v * 100),
        _ => w.text(format!("t{v}")),
    }
}

fn wide_model(w: &mut Wide, f: usize, v: usize) {
    match f {
        0 => w.count = Some(v * 10),
        1 => w.name = Some(format!("n{v}")),
        2 => w.ratio = Some(if v == 0 { 0.5 } else { v as f64 + 0.25 }),
        3 => w.list = Some(if v == 0 { vec![] } else { vec![v as u8, 9] }),
        4 => w.flag = v == 1,
        5 => w.level = v as i32 * 7 - 7,
        6 => w.total = v * 100,
        _ => w.text = format!("t{v}"),
    }
}

fn wide_starts() -> Vec<Option<Wide>> {
    vec![None, Some(Wide::default()), Some(Wide { count: None, name: Some("x".into()), ratio: Some(-1.), list: Some(vec![1]), flag: false, level: 99, total: 0, text: "".into() })]
}

fn wide(start: &Option<Wide>, seq: &[(usize, usize)]) -> R {
    let mut m = start.clone().unwrap_or_default();
    for (f, v) in seq { wide_model(&mut m, *f, *v); }
    let got = match (start, seq) {
        (None, []) => ().into_arg_wide(),
        (None, [h, rest @ ..]) => rest.iter().fold(wide_set((), h.0, h.1), |w, s| wide_set(w, s.0, s.1)),
        (Some(s), seq) => seq.iter().fold(s.clone(), |w, s| wide_set(w, s.0, s.1)),
    };
    if got != m { return Err(format!("{got:?}, expected {m:?}")); }
    let got = take(got);
    if got != m { return Err(format!("into_arg: {got:?}, expected {m:?}")); }
    Ok(())
}

/// As an operation takes its options.
fn take(o: impl WideOpt) -> Wide {
    o.into_arg()
}

trait Nil { fn into_arg_wide(self) -> Wide; }
impl Nil for () { fn into_arg_wide(self) -> Wide { take(self) } }

#[derive_opt(TwoOpt)]
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Two {
    value: u8,
    arg: Option<usize>,
}

#[derive_opt(OneOpt)]
#[derive(Default, Clone, Debug, PartialEq)]
pub(crate) struct One {
    pub only: Option<i64>,
}

#[derive_opt(NoneOpt)]
#[derive(Default, Clone, Debug, PartialEq)]
struct Empty {}

mod other {
    use essay_opt::derive_opt;
    #[derive_opt(NestOpt)]
    #[derive(Clone, Debug, PartialEq, Default)]
    pub struct Nest {
        pub inner: Option<super::Two>,
        pub pair: (u8, Option<u8>),
        pub self_: Option<Box<[u16]>>,
    }
}
use other::NestOpt;

// ---- hand-written options

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Set { Mean(i32), Std(i32), Seed(u64) }

fn near_all(t: &Tensor, want: &[f64]) -> R {
    same_by(t, &[want.len()], want, |a, b| near(*a, *b, 1e-5))
}

fn normal(c: &mut Ctx, start: usize, seq: &[Set]) -> R {
    c.tick();
    let (mut mean, mut std, mut seed) = (0i32, 1i32, None);
    let mut o = match start {
        0 => Normal::default(),
        1 => { mean = 3; Normal::mean(3.) }
        2 => { std = 4; Normal::std(4.) }
        3 => { seed = Some(11); Normal::seed(11) }
        4 => { mean = -2; std = 5; Normal::from((-2., 5.)) }
        5 => Normal::from(None),
        _ => { seed = Some(12); Normal::from(Some(12)) }
    };
    for s in seq {
        o = match *s {
            Set::Mean(m) => { mean = m; o.with_mean(m as f32) }
            Set::Std(m) => { std = m; o.with_std(m as f32) }
            Set::Seed(s) => { seed = Some(s); o.with_seed(s) }
        };
    }
    let mut canon = Normal::default().with_std(std as f32).with_mean(mean as f32);
    if let Some(s) = seed { canon = canon.with_seed(s); }
    if o != canon { return Err(format!("{o:?}, expected {canon:?}")); }
    if let Some(s) = seed {
        let p = random_normal([6], Normal::seed(s));
        let want: Vec<f64> = p.iter().map(|p| mean as f64 + *p as f64 * std as f64).collect();
        near_all(&random_normal([6], o), &want)?;
        near_all(&Tensor::random_normal([6], o), &want)?;
    } else {
        // unseeded: mean and deviation show when the draws do not matter
        if std == 0 { near_all(&random_normal([4], o), &[mean as f64; 4])?; }
    }
    c.outcome(&(mean, std, seed));
    Ok(())
}

fn uniform(c: &mut Ctx, start: usize, seq: &[Set]) -> R {
    c.tick();
    let (mut min, mut max, mut seed) = (0i32, 1i32, None);
    let mut o = match start {
        0 => Uniform::default(),
        1 => { min = -3; Uniform::min(-3.) }
        2 => { max = 4; Uniform::max(4.) }
        3 => { seed = Some(11); Uniform::seed(11) }
        4 => { min = -2; max = 5; Uniform::from((-2., 5.)) }
        5 => Uniform::from(None),
        _ => { seed = Some(12); Uniform::from(Some(12)) }
    };
    for s in seq {
        o = match *s {
            Set::Mean(m) => { min = m; o.with_min(m as f32) }
            Set::Std(m) => { max = m; o.with_max(m as f32) }
            Set::Seed(s) => { seed = Some(s); o.with_seed(s) }
        };
    }
    let mut canon = Uniform::default().with_max(max as f32).with_min(min as f32);
    if let Some(s) = seed { canon = canon.with_seed(s); }
    if o != canon { return Err(format!("{o:?}, expected {canon:?}")); }
    if max < min { return Ok(()); }
    if let Some(s) = seed {
        let p = random_uniform([6], Uniform::seed(s));
        let want: Vec<f64> = p.iter().map(|p| min as f64 + *p as f64 * (max - min) as f64).collect();
        near_all(&random_uniform([6], o), &want)?;
        near_all(&Tensor::random_uniform([6], o), &want)?;
    } else if min == max {
        near_all(&random_uniform([4], o), &[min as f64; 4])?;
    }
    c.outcome(&(min, max, seed));
    Ok(())
}

fn main() {
    run("c29", |c| {
        // all setter sequences
        let starts = wide_starts();
        for (si, s) in starts.iter().enumerate() {
            for depth in 0..=c.pick(3, 4) {
                for fields in lists(depth, &[0, 1, 2, 3, 4, 5, 6, 7]) {
                    c.case("derive", || format!("start {si}, fields {fields:?}"), |c| {
                        for vals in lists(depth, &[0, 1, 2]) {
                            let seq: Vec<(usize, usize)> = fields.iter().cloned().zip(vals.iter().cloned()).collect();
                            c.ticks(1 + depth as u64);
                            c.state(&(si, &seq));
                            ok("setters", || wide(s, &seq))?.map_err(|e| format!("{seq:?}: {e}"))?;
                        }
                        Ok(())
                    });
                }
            }
            // every field set in every order (rotations and reversals), each twice
            for rot in 0..WIDE_FIELDS {
                for rev in [false, true] {
                    c.case("derive all", || format!("start {si}, rotation {rot}, reversed {rev}"), |c| {
                        let mut seq: Vec<(usize, usize)> = (0..2 * WIDE_FIELDS).map(|i| ((i + rot) % WIDE_FIELDS, i % 3)).collect();
                        if rev { seq.reverse(); }
                        c.ticks(seq.len() as u64);
                        wide(s, &seq)
                    });
                }
            }
        }
        for seq in (0..=5).flat_map(|n| lists(n, &[0, 1, 2, 3])) {
            c.case("derive two", || format!("{seq:?}"), |c| {
                c.ticks(1 + seq.len() as u64);
                c.state(&("two", &seq));
                let mut m = Two::default();
                let mut g: Option<Two> = None;
                for s in &seq {
                    let o = g.take();
                    g = Some(match (o, s) {
                        (None, 0 | 1) => ().value(*s as u8 + 4),
                        (None, _) => ().arg(*s),
                        (Some(o), 0 | 1) => o.value(*s as u8 + 4),
                        (Some(o), _) => o.arg(*s),
                    });
                    if *s < 2 { m.value = *s as u8 + 4 } else { m.arg = Some(*s) }
                }
                let g = match g { Some(g) => TwoOpt::into_arg(g), None => TwoOpt::into_arg(()) };
                if g != m { Err(format!("{g:?}, expected {m:?}")) } else { Ok(()) }
            });
        }
        c.case("derive others", || "one field, no field, nested types".into(), |c| {
            c.ticks(10);
            let e = |b: bool, s: &str| if b { Ok(()) } else { Err(s.to_string()) };
            e(OneOpt::into_arg(()) == One { only: None }, "one default")?;
            e(OneOpt::only((), 5i32) == One { only: Some(5) }, "one set")?;
            e(OneOpt::only(OneOpt::only((), 5i32), -6i64).into_arg() == One { only: Some(-6) }, "one reset")?;
            e(NoneOpt::into_arg(()) == Empty {}, "empty")?;
            e(NoneOpt::into_arg(Empty {}) == Empty {}, "empty")?;
            let n = ().inner(Two { value: 3, arg: None }).pair((1, Some(2))).self_(vec![5u16]);
            e(n == other::Nest { inner: Some(Two { value: 3, arg: None }), pair: (1, Some(2)), self_: Some(vec![5u16].into()) }, "nested")?;
            let n = n.pair((9, None)).into_arg();
            e(n == other::Nest { inner: Some(Two { value: 3, arg: None }), pair: (9, None), self_: Some(vec![5u16].into()) }, "nested")
        });
        // hand-written options
        let menu = [Set::Mean(0), Set::Mean(7), Set::Mean(-3), Set::Std(0), Set::Std(2), Set::Std(9), Set::Seed(0), Set::Seed(5), Set::Seed(u64::MAX)];
        for start in 0..7 {
            for depth in 0..=c.pick(3, 4) {
                for code in lists(depth, &[0, 1, 2, 3, 4, 5, 6, 7, 8]) {
                    let seq: Vec<Set> = code.iter().map(|k| menu[*k]).collect();
                    c.case("normal", || format!("start {start}, {seq:?}"), |c| { c.state(&(start, &seq)); normal(c, start, &seq) });
                    c.case("uniform", || format!("start {start}, {seq:?}"), |c| { c.state(&(start, &seq, 1)); uniform(c, start, &seq) });
                }
            }
        }
        let data = Tensor::from([1f32, 2., 3., 9.]);
        let pts = Tensor::from([[1f32, 2.], [3., 9.]]);
        for depth in 0..=c.pick(3, 4) {
            for seq in lists(depth, &[1, 2, 5, 10, 11, 64]) {
                c.case("histogram options", || format!("{seq:?}"), |c| {
                    c.state(&("hist", &seq));
                    c.ticks(8);
                    let want = seq.last().cloned().unwrap_or(10);
                    for base in 0..3 {
                        let a = seq.iter().fold(match base { 0 => HistArgs::new(), 1 => HistArgs::from(()), _ => HistArgs::default() }, |a, n| a.n_bins(*n));
                        let (v, b) = histogram(&data, a);
                        if v.len() != want || b.len() != want + 1 { return Err(format!("{} bins, expected {want}", v.len())); }
                        let a = seq.iter().fold(match base { 0 => Hist2Args::new(), 1 => Hist2Args::from(()), _ => Hist2Args::default() }, |a, n| a.n_bins(*n));
                        let (v, b, _) = histogram2d(&pts, a);
                        if dims_of(&v) != [want, want] || b.len() != want + 1 { return Err(format!("{:?} bins in 2d, expected {want}", dims_of(&v))); }
                    }
                    if let [n] = seq[..] {
                        if histogram(&data, HistArgs::from(n)).0.len() != n || histogram(&data, n).0.len() != n { return Err("bins from a number".into()); }
                        if dims_of(&histogram2d(&pts, n).0) != [n, n] { return Err("2d bins from a number".into()); }
                    }
                    Ok(())
                });
            }
        }
        // fft_length
        let sig = Tensor::from([1f32, 2., 3., 4., 5., 6.]);
        for depth in 0..=c.pick(3, 4) {
            for seq in lists(depth, &[1, 2, 3, 4, 5, 9]) {
                for from_nil in [true, false] {
                    c.case("fft options", || format!("{seq:?}, from (): {from_nil}"), |c| {
                        c.state(&("fft", &seq, from_nil));
                        c.ticks(1 + depth as u64);
                        let want = seq.last().cloned().unwrap_or(4);
                        let a: FftArg = match (&seq[..], from_nil) {
                            ([h, rest @ ..], true) => rest.iter().fold(().fft_length(*h), |a, n| a.fft_length(*n)),
                            ([], true) => FftOpt::into_arg(()),
                            (all, false) => all.iter().fold(FftArg::default(), |a, n| a.fft_length(*n)),
                        };
                        let t = rfft_norm(&sig, a);
                        if dims_of(&t) != [want] { Err(format!("{:?} outputs, expected {want}", dims_of(&t))) } else { Ok(()) }
                    });
                }
            }
        }
        // base of logarithmic spacing
        for b in [1.5f32, 2., 3., 10., 16.] {
            for n in 2..6 {
                c.case("logspace options", || format!("base {b}, {n} steps"), |c| {
                    c.ticks(4);
                    c.state(&(n, b.to_bits()));
                    let want = |b: f64| -> Vec<f64> { (0..n).map(|i| b.powf(1. + 2. * i as f64 / (n - 1) as f64)).collect() };
                    let (s, e) = (Tensor::from(1f32), Tensor::from(3f32));
                    near_all(&logspace_opt(&s, &e, n, b), &want(b as f64))?;
                    near_all(&logspace_opt(&s, &e, n, Some(b)), &want(b as f64))?;
                    near_all(&logspace_opt(&s, &e, n, None), &want(10.))?;
                    near_all(&logspace(&s, &e, n), &want(10.))
                });
            }
        }
    });
}
