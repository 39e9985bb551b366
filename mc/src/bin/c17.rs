//! C17: normalization along lanes and unit normalization.
use essay_tensor::tensor::{Axis, Tensor, Type};
use mc::*;

#[derive(Clone, Debug, PartialEq)]
struct Out {
    own: u32,
    lane: Vec<u32>,
}
impl Type for Out {}

fn lane_of(d: &[usize], axis: Option<usize>, pos: usize, idx: &[usize]) -> Vec<usize> {
    let _ = pos;
    match axis {
        None => (0..size(d)).collect(),
        Some(a) => (0..d[a]).map(|k| {
            let mut i = idx.to_vec();
            i[a] = k;
            flat(d, &i)
        }).collect(),
    }
}

fn norm(c: &mut Ctx, d: &[usize], p: Prov, axis: Option<(isize, usize)>, form: u8) -> R {
    let m = M::<u32>::seq(d, 1);
    let t = build(&m, p);
    c.state(&(d, p as u8, axis));
    c.tick();
    let ax: Axis = match (axis, form) {
        (None, 0) => Axis::default(),
        (None, _) => None.into(),
        (Some((a, _)), 0) => Axis::axis(a),
        (Some((a, _)), 1) => a.into(),
        (Some((a, _)), _) => Some(a).into(),
    };
    let (mut n_acc, mut n_done, mut n_norm) = (0usize, 0usize, 0usize);
    let got: Tensor<Out> = ok("normalize", || t.normalize(
        ax,
        vec![7u32],
        |mut s: Vec<u32>, v| { n_acc += 1; s.push(*v); s },
        |mut s| { n_done += 1; s.push(8); std::rc::Rc::new(s) },
        |s: &std::rc::Rc<Vec<u32>>, v| { n_norm += 1; Out { own: *v, lane: s.to_vec() } },
    ))?;
    let mut want = Vec::new();
    for (pos, idx) in indices(d).iter().enumerate() {
        let mut lane = vec![7];
        lane.extend(lane_of(d, axis.map(|a| a.1), pos, idx).iter().map(|i| m.data[*i]));
        lane.push(8);
        want.push(Out { own: m.data[pos], lane });
    }
    same_by(&got, d, &want, |a, b| a == b)?;
    let n = m.data.len();
    let lanes = match axis { None => 1, Some((_, a)) => n / d[a] };
    if (n_acc, n_done, n_norm) != (n, lanes, n) {
        return Err(format!("calls accum {n_acc}, complete {n_done}, norm {n_norm}; expected {n}, {lanes}, {n}"));
    }
    c.outcome(&(d, lanes));
    same(&t, &m)
}

fn cheap(c: &mut Ctx, d: &[usize], p: Prov, axis: Option<(isize, usize)>) -> R {
    // lane hash instead of the whole lane, for long lanes
    let m = M::<i64>::seq(d, 1);
    let t = build(&m, p);
    c.tick();
    let h = |s: i64, v: i64| s.wrapping_mul(1_000_003).wrapping_add(v);
    let got = ok("normalize", || t.normalize(axis.map(|a| a.0), 17i64, |s, v| h(s, *v), |s| s, |s, v| h(*s, *v)))?;
    let mut memo = std::collections::HashMap::new();
    let mut want = Vec::new();
    for (pos, idx) in indices(d).iter().enumerate() {
        let mut key = idx.clone();
        match axis { None => key.clear(), Some((_, a)) => { key.remove(a); } }
        let s = *memo.entry(key).or_insert_with(|| lane_of(d, axis.map(|a| a.1), pos, idx).iter().fold(17i64, |s, i| h(s, m.data[*i])));
        want.push(h(s, m.data[pos]));
    }
    same(&got, &M::new(d, want))
}

fn unit<F: Elem + num_traits::Float>(c: &mut Ctx, d: &[usize], vals: &[f64], p: Prov, eps: f64) -> R {
    let data: Vec<F> = vals.iter().map(|v| F::from(*v).unwrap()).collect();
    let m = M::new(d, data);
    let t = build(&m, p);
    c.tick();
    let r = ok("normalize_unit", || t.normalize_unit())?;
    if dims_of(&r) != d {
        return Err(format!("dimensions {:?}", dims_of(&r)));
    }
    let lo = m.data.iter().cloned().fold(F::infinity(), |a, b| a.min(b));
    let hi = m.data.iter().cloned().fold(F::neg_infinity(), |a, b| a.max(b));
    let (lo64, hi64) = (lo.to_f64().unwrap(), hi.to_f64().unwrap());
    for (i, (x, y)) in m.data.iter().zip(r.iter()).enumerate() {
        let want = (x.to_f64().unwrap() - lo64) / (hi64 - lo64);
        let y64 = y.to_f64().unwrap();
        let good = (y64 - want).abs() <= eps && (*x != lo || y64 == 0.) && (*x != hi || y64 == 1.) && (0. ..=1.).contains(&y64);
        if !good {
            return Err(format!("element {i} = {x:?} became {y:?}, expected {want} (min {lo:?} max {hi:?})"));
        }
        for (x2, y2) in m.data.iter().zip(r.iter()).take(40) {
            if x < x2 && y > y2 {
                return Err(format!("not monotone: {x:?}->{y:?}, {x2:?}->{y2:?}"));
            }
        }
    }
    same(&t, &m)
}

fn all(c: &mut Ctx, g: &str, d: &[usize], p: Prov, log: bool) {
    let mut ax: Vec<Option<(isize, usize)>> = vec![None];
    ax.extend(axes(d.len()).into_iter().map(Some));
    for (k, a) in ax.into_iter().enumerate() {
        if log {
            c.case(g, || format!("{a:?} {d:?} {p:?}"), |c| norm(c, d, p, a, (k % 3) as u8));
        } else {
            c.case(g, || format!("{a:?} {d:?} {p:?}"), |c| cheap(c, d, p, a));
        }
    }
}

fn main() {
    run("C17", |c| {
        let provs: Vec<Prov> = c.pick(vec![Prov::Own, Prov::Mid, Prov::OuterTail], ALL_PROV.to_vec());
        for d in small_shapes(c.tier, 0, 6) {
            for p in &provs {
                all(c, "small", &d, *p, true);
            }
        }
        for d in [vec![2, 3], vec![2, 3, 2], vec![5], vec![]] {
            for p in ALL_PROV {
                all(c, "provenance", &d, p, true);
            }
        }
        for d in long_shapes(c, 1, 5) {
            all(c, "long", &d, Prov::Mid, false);
        }
        for n in lengths(c, 5) {
            for d in [vec![n], vec![n, 1], vec![1, n], vec![n, 3], vec![3, n], vec![2, n, 2]] {
                all(c, "length", &d, Prov::Own, false);
            }
        }
        // unit normalization: all short sequences over a value alphabet
        let alpha: Vec<f64> = vec![0., 1., -1., 2.5, -3., 1000., -1e-3, 1e6, -7e9, 1e30, -1e30, 1e-30];
        let upto = c.pick(4, 5);
        for n in 2..=upto {
            for l in lists(n, &(0..alpha.len()).collect::<Vec<_>>()) {
                let v: Vec<f64> = l.iter().map(|i| alpha[*i]).collect();
                if v.iter().all(|x| *x == v[0]) {
                    continue;
                }
                c.case("unit f32", || format!("{v:?}"), |c| unit::<f32>(c, &[n], &v, Prov::Own, 1e-6));
                if n <= 3 {
                    c.case("unit f64", || format!("{v:?}"), |c| unit::<f64>(c, &[n], &v, Prov::Mid, 1e-14));
                }
            }
        }
        // magnitudes that only double precision holds
        let wide: Vec<f64> = vec![0., 1., -1., 1e39, 3e39, -1e39, 1e300, -1e300, 1e-300, -3e-300, 1e-45, 3e-46, 1. + 1e-12, 16777217., 1e15 + 1., 1e15];
        for n in 2..=3 {
            for l in lists(n, &(0..wide.len()).collect::<Vec<_>>()) {
                let v: Vec<f64> = l.iter().map(|i| wide[*i]).collect();
                if v.iter().all(|x| *x == v[0]) {
                    continue;
                }
                c.case("unit f64 wide", || format!("{v:?}"), |c| unit::<f64>(c, &[n], &v, Prov::Own, 1e-14));
            }
        }
        for d in small_shapes(c.tier, 1, 6) {
            if size(&d) > 1 {
                let v: Vec<f64> = (0..size(&d)).map(|i| ((i * 37 + 11) % 101) as f64 - 50.).collect();
                for p in FEW_PROV {
                    c.case("unit shape", || format!("{d:?} {p:?}"), |c| unit::<f32>(c, &d, &v, p, 1e-6));
                }
            }
        }
        for n in lengths(c, 2) {
            let v: Vec<f64> = (0..n).map(|i| ((i * 7919 + 13) % 10007) as f64 - 5000.).collect();
            c.case("unit length", || format!("{n}"), |c| unit::<f32>(c, &[n], &v, Prov::Own, 1e-6));
            // the extremes at every position of interest
            for k in [0, n / 2, n - 1] {
                for s in [-9000., 9000.] {
                    let mut w = v.clone();
                    w[k] = s;
                    c.case("unit extreme", || format!("{n} {k} {s}"), |c| unit::<f32>(c, &[n], &w, Prov::Mid, 1e-6));
                }
            }
        }
    });
}
