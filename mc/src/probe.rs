//! Runs every kind of operation on a tensor and records what came out, so
//! that two tensors with equal contents can be compared as operands.

use essay_tensor::tensor::Tensor;
use essay_tensor::{array, init, signal, stats};

use crate::ctx::catch;

#[derive(Clone, Debug)]
pub struct Out {
    pub name: &'static str,
    pub panicked: bool,
    pub dims: Vec<Vec<usize>>,
    pub vals: Vec<f64>,
    pub text: String,
}

pub trait Part {
    fn put(&self, o: &mut Out);
}

macro_rules! num_part {
    ($($t:ty)*) => { $(
        impl Part for Tensor<$t> {
            fn put(&self, o: &mut Out) {
                o.dims.push(self.shape().as_vec());
                o.vals.extend(self.iter().map(|v| *v as f64));
            }
        }
        impl Part for Vec<$t> {
            fn put(&self, o: &mut Out) {
                o.vals.extend(self.iter().map(|v| *v as f64));
            }
        }
    )* };
}
num_part!(i32 u32 f32 usize u64);

impl Part for Tensor<bool> {
    fn put(&self, o: &mut Out) {
        o.dims.push(self.shape().as_vec());
        o.vals.extend(self.iter().map(|v| *v as u8 as f64));
    }
}

impl Part for String {
    fn put(&self, o: &mut Out) {
        o.text.push_str(self);
    }
}

impl Part for Vec<Tensor<i32>> {
    fn put(&self, o: &mut Out) {
        for t in self {
            t.put(o);
        }
    }
}

impl Part for [Tensor<i32>; 2] {
    fn put(&self, o: &mut Out) {
        for t in self {
            t.put(o);
        }
    }
}

impl<A: Part, B: Part> Part for (A, B) {
    fn put(&self, o: &mut Out) {
        self.0.put(o);
        self.1.put(o);
    }
}

impl<A: Part, B: Part, C: Part> Part for (A, B, C) {
    fn put(&self, o: &mut Out) {
        self.0.put(o);
        self.1.put(o);
        self.2.put(o);
    }
}

fn take<P: Part>(out: &mut Vec<Out>, name: &'static str, f: impl FnOnce() -> P) {
    let mut o = Out { name, panicked: false, dims: vec![], vals: vec![], text: String::new() };
    match catch(f) {
        Ok(p) => p.put(&mut o),
        Err(_) => o.panicked = true,
    }
    out.push(o);
}

macro_rules! probes {
    ($out:ident; $($name:literal => $e:expr;)*) => { $( take(&mut $out, $name, || $e); )* };
}

/// A batch of k tensors shaped like `t`, in front of its axes.
fn batch<T: essay_tensor::tensor::Type + Clone>(t: &Tensor<T>, k: usize, f: impl Fn(usize) -> T) -> Tensor<T> {
    let mut d = t.shape().as_vec();
    d.insert(0, k);
    Tensor::from_vec((0..k * t.size()).map(f).collect(), crate::model::shape(&d))
}

/// Every operation kind on an integer tensor.
pub fn probe_i32(t: &Tensor<i32>) -> Vec<Out> {
    let mut out = Vec::new();
    let n = t.size();
    probes! { out;
        "as_slice" => t.as_slice().to_vec();
        "deref" => (&**t).to_vec();
        "iter" => t.iter().copied().collect::<Vec<i32>>();
        "into_iter" => t.into_iter().copied().collect::<Vec<i32>>();
        "get" => (0..n + 3).map(|i| t.get(i).map(|v| *v).unwrap_or(-77)).collect::<Vec<i32>>();
        "index" => (0..n).map(|i| t[i]).collect::<Vec<i32>>();
        "index end" => vec![t[n]];
        "iter_row" => t.iter_row().flat_map(|r| r.iter().copied().chain([r.len() as i32])).collect::<Vec<i32>>();
        "wrap" => (0..2 * n + 1).flat_map(|i| t.as_wrap_slice(i).to_vec()).collect::<Vec<i32>>();
        "wrap_n" => (0..2 * n + 1).flat_map(|i| t.as_wrap_slice_n(i, n - i % n).to_vec()).collect::<Vec<i32>>();
        "debug" => format!("{t:?}");
        "sizes" => vec![t.size(), t.rank(), t.cols(), t.rows(), t.shape().size()];
        "len" => vec![t.len(), t.dim(0)];
        "clone" => t.clone();
        "map" => t.map(|v| v.wrapping_mul(3));
        "map_row" => t.map_row::<2, i32>(|r| [r[0], r.len() as i32]);
        "map_expand" => t.map_expand::<2, i32>(|v| [*v, v + 1]);
        "map2" => t.map2(t, |a, b| a.wrapping_mul(5).wrapping_sub(*b));
        "map2 scalar" => t.map2(&Tensor::from(3), |a, b| a + b);
        "scalar map2" => Tensor::from(3).map2(t, |a, b| a - b);
        "map3" => t.map3(&Tensor::from(3), t, |a, b, c| a - b + c);
        "map2 batch" => t.map2(&batch(t, 3, |i| i as i32), |a, b| a.wrapping_mul(7) - b);
        "batch map2" => batch(t, 3, |i| i as i32).map2(t, |a, b| a.wrapping_mul(7) - b);
        "map3 batch" => t.map3(&batch(t, 2, |i| i as i32), &Tensor::from(3), |a, b, c| a.wrapping_mul(7) - b * c);
        "batch map3" => batch(t, 2, |i| i as i32).map3(t, &batch(t, 2, |i| 2 * i as i32), |a, b, c| a.wrapping_mul(7) - b * c);
        "batch3 map3" => batch(t, 2, |i| i as i32).map3(&Tensor::from(3), t, |a, b, c| a.wrapping_mul(7) - b * c);
        "t - batch" => t - &batch(t, 2, |i| i as i32);
        "batch - t" => batch(t, 2, |i| i as i32) - t;
        "wrap_ptr" => (0..3 * n).map(|i| unsafe { *t.as_wrap_ptr(i) }).collect::<Vec<i32>>();
        "fold" => t.fold(1i32, |s, v| s.wrapping_mul(31).wrapping_add(*v));
        "fold 0" => t.fold_axis(0, 1i32, |s, v| s.wrapping_mul(31).wrapping_add(*v));
        "fold -1" => t.fold_axis(-1, 1i32, |s, v| s.wrapping_mul(31).wrapping_add(*v));
        "fold_row" => t.fold_row(None, [1i32, 2], |s, r| [s[1].wrapping_mul(3).wrapping_add(r[0]), s[0] + r[r.len() - 1]]);
        "fold_row 0" => t.fold_row(0, [1i32, 2], |s, r| [s[1].wrapping_mul(3).wrapping_add(r[0]), s[0] + r[r.len() - 1]]);
        "normalize" => t.normalize(0, 0i32, |s, v| s.wrapping_mul(3).wrapping_add(*v), |s| s, |s, v| v.wrapping_sub(*s));
        "reduce" => t.reduce(|a, b| a.wrapping_mul(31).wrapping_add(b));
        "reduce 0" => t.reduce_axis(0, |a, b| a.wrapping_mul(31).wrapping_add(b));
        "reduce -1" => t.reduce_axis(-1, |a, b| a.wrapping_mul(31).wrapping_add(b));
        "sum" => t.reduce_sum();
        "sum 0" => t.reduce_sum_axis(0);
        "flatten" => t.clone().flatten();
        "reshape" => t.clone().reshape([1, n, 1]);
        "reshape bad" => t.clone().reshape([n + 1]);
        "squeeze" => t.clone().squeeze();
        "expand" => t.clone().expand_dims(-1);
        "append" => t.append(t);
        "merge" => Tensor::from_merge(&[t.clone(), t.clone()], [2 * n]);
        "from_slice" => Tensor::from_slice(t);
        "from list" => Tensor::from(&vec![t.clone(), t.clone()]);
        "subslice first" => t.subslice(0, 1);
        "subslice last" => t.subslice(t.dim(0) - 1, 1);
        "subslice beyond" => t.subslice(t.dim(0), 1);
        "flat tail" => t.subslice_flat(n - 1, 1, [1]);
        "flat beyond" => t.subslice_flat(n, 1, [1]);
        "slice" => t.slice(t.dim(0) - 1);
        "slice 0" => t.slice(0);
        "slice beyond" => t.slice(t.dim(0));
        "concat" => array::concatenate([t, t]);
        "concat -1" => array::concatenate_axis(-1, [t, t]);
        "stack" => array::stack([t, t]);
        "stack -1" => array::stack_axis(-1, [t, t]);
        "hstack" => array::hstack([t, t]);
        "vstack" => array::vstack([t, t]);
        "dstack" => array::dstack([t, t]);
        "split" => t.split(1usize);
        "split -1" => t.split_axis(-1, [1]);
        "unstack" => t.unstack(0);
        "unstack -1" => t.unstack(-1);
        "tile" => t.tile([2, 2]);
        "transpose" => t.transpose();
        "tril" => t.tril();
        "triu" => t.triu();
        "diagflat" => t.diagflat();
        "meshgrid" => t.meshgrid(t);
        "meshgrid_ij" => init::meshgrid_ij([t, t]);
        "neg" => -t;
        "not" => !t;
        "add" => t + t;
        "sub own" => t.clone() - Tensor::from(4);
        "mul x" => t * 3;
        "x - t" => 3 - t;
        "and" => t & t.clone();
        "max" => t.max(4);
        "min" => t.min(t);
        "abs" => t.abs();
        "pos" => t.is_positive();
        "ones" => t.count_ones();
        "square" => t.square();
        "rot" => t.rotate_left(&Tensor::from(3u32));
        "eq" => vec![(t == t) as u32, (*t == Tensor::from_vec(t.to_vec(), t.shape())) as u32];
        "cmp" => vec![(t < &t.map(|v| v + 1)) as u32, (t.partial_cmp(t) == Some(std::cmp::Ordering::Equal)) as u32];
        "collect" => t.iter().collect::<Tensor<i32>>();
    }
    out
}

/// Operations that exist for floats only.
pub fn probe_f32(t: &Tensor<f32>) -> Vec<Out> {
    let mut out = Vec::new();
    probes! { out;
        "mean" => t.reduce_mean();
        "mean 0" => t.reduce_mean_axis(0);
        "std" => t.reduce_std();
        "std -1" => t.reduce_std_axis(-1);
        "var" => t.reduce_variance();
        "var 0" => t.reduce_variance_axis(0);
        "min" => t.reduce_min();
        "max 0" => t.reduce_max_axis(0);
        "hypot" => t.reduce_hypot();
        "unit" => t.normalize_unit();
        "sqrt" => t.sqrt();
        "exp" => t.exp();
        "powi" => t.powi(2);
        "atan2" => t.atan2(t);
        "matmul" => t.matmul(&t.transpose());
        "matvec" => t.matvec(t);
        "matvec batch" => t.matvec(&Tensor::from_vec((0..6 * t.cols()).map(|i| i as f32).collect(), [3, 2, t.cols()]));
        "batch matvec" => Tensor::from_vec((0..12 * t.cols()).map(|i| (i % 7) as f32).collect(), [3, 4, t.cols()]).matvec(t);
        "matmul batch" => t.matmul(&batch(&t.transpose(), 3, |i| (i % 7) as f32));
        "batch matmul" => batch(&t.transpose(), 3, |i| (i % 7) as f32).matmul(t);
        "linspace batch" => init::linspace(t, batch(t, 2, |i| i as f32), 3);
        "rfft batch" => signal::rfft_norm(batch(t, 2, |i| (i % 5) as f32).map2(t, |a, b| a + b), ());
        "hypot t" => t.hypot(&batch(t, 2, |i| i as f32));
        "hist" => stats::histogram(t.clone().flatten(), 4);
        "hist2" => stats::histogram2d(t, 3);
        "rfft" => signal::rfft_norm(t, ());
        "frame" => signal::frame(t, 2, 1);
        "linspace" => init::linspace(t, t, 3);
        "geomspace" => init::geomspace(t, t, 3);
        "logspace" => init::logspace(t, t, 2);
        "t.linspace" => t.linspace(t, 2);
        "x / t" => 2.0 / t;
        "rem" => t % t;
        "mul_add" => num_traits::MulAdd::mul_add(t.clone(), t, t);
    }
    out
}

pub fn diff(a: &[Out], b: &[Out]) -> Result<(), String> {
    for (x, y) in a.iter().zip(b) {
        let near = |p: f64, q: f64| (p.is_nan() && q.is_nan()) || p == q || (p - q).abs() <= 2e-5 * q.abs().max(1e-3);
        if x.panicked != y.panicked {
            return Err(format!("{}: panics {} instead of {}", x.name, x.panicked, y.panicked));
        }
        if x.dims != y.dims || x.text != y.text || x.vals.len() != y.vals.len() {
            return Err(format!("{}: {:?} {:?} {:?} instead of {:?} {:?} {:?}", x.name, x.dims, x.text, x.vals, y.dims, y.text, y.vals));
        }
        if let Some(i) = (0..x.vals.len()).find(|i| !near(x.vals[*i], y.vals[*i])) {
            return Err(format!("{}: value {i} is {} instead of {} (dims {:?})", x.name, x.vals[i], y.vals[i], x.dims));
        }
    }
    Ok(())
}
