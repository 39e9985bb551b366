//! Every numeric operation on float tensors, with an axis and two counts as
//! further arguments. The second field names the arguments an entry uses
//! (b: second tensor, x: axis, n, m: counts).

use essay_tensor::array;
use essay_tensor::init;
use essay_tensor::linalg;
use essay_tensor::signal::{self, FftOpt};
use essay_tensor::stats;
use essay_tensor::tensor::{scalar, Axis, Shape, Tensor};
use num_complex::Complex;
use num_traits::MulAdd;

pub type F = Tensor<f32>;

pub struct Args<'a> {
    pub a: &'a F,
    pub b: &'a F,
    pub x: isize,
    pub n: usize,
    pub m: usize,
}

pub type FOp = fn(&Args) -> Vec<F>;

fn of<T: essay_tensor::tensor::Type>(t: &Tensor<T>, f: impl Fn(&T) -> f32) -> F {
    Tensor::from_vec(t.iter().map(|v| f(v)).collect::<Vec<f32>>(), t.shape())
}

fn ints(t: &F) -> Tensor<i32> {
    t.map(|v| *v as i32)
}

fn cplx(t: &F, u: &F) -> Tensor<Complex<f32>> {
    t.map2(u, |a, b| Complex::new(*a, *b))
}

fn nums(v: impl IntoIterator<Item = usize>) -> F {
    let v: Vec<f32> = v.into_iter().map(|v| v as f32).collect();
    Tensor::from(v)
}

fn txt(s: String) -> F {
    Tensor::from(s.bytes().map(|b| b as f32).collect::<Vec<f32>>())
}

fn sh(r: (Shape, usize, usize, usize)) -> F {
    nums(r.0.as_vec().into_iter().chain([r.1, r.2, r.3]))
}

macro_rules! fops {
    ($($name:literal $uses:literal |$g:ident| $e:expr;)*) => {
        pub const FOPS: &[(&str, &str, FOp)] = &[$(($name, $uses, |$g: &Args| { $e })),*];
    };
}

fops! {
    "clone" "" |g| vec![g.a.clone()];
    "get" "n" |g| vec![scalar(g.a.get(g.n).copied().unwrap_or(-3.))];
    "index" "n" |g| vec![scalar(g.a[g.n])];
    "index 2" "nm" |g| vec![scalar(g.a[(g.n, g.m)])];
    "index 3" "nm" |g| vec![scalar(g.a[(g.n, g.m, g.n)])];
    "index 3'" "nm" |g| vec![scalar(g.a[(0, g.n, g.m)])];
    "index 4" "nm" |g| vec![scalar(g.a[(0, g.n, g.m, 0)])];
    "index 5" "nm" |g| vec![scalar(g.a[(0, g.n, 0, g.m, 0)])];
    "wrap" "n" |g| vec![Tensor::from(g.a.as_wrap_slice(g.n))];
    "wrap_n" "nm" |g| vec![Tensor::from(g.a.as_wrap_slice_n(g.n, g.m))];
    "rows" "" |g| vec![nums(g.a.iter_row().map(|r| r.len())), Tensor::from(g.a.iter_row().flatten().copied().collect::<Vec<f32>>())];
    "dims" "n" |g| vec![nums([g.a.dim(g.n)])];
    "rdims" "n" |g| vec![nums([g.a.shape().rdim(g.n)])];
    "dim_tail" "x" |g| vec![nums([g.a.shape().idim(g.x)])];
    "len" "" |g| vec![nums([g.a.len(), g.a.rows(), g.a.cols(), g.a.rank(), g.a.size()])];
    "sublen" "nm" |g| vec![nums([g.a.shape().sublen(g.n, g.m)])];
    "rsublen" "nm" |g| vec![nums([g.a.shape().rsublen(g.n, g.m)])];
    "batch_len" "n" |g| vec![nums([g.a.shape().batch_len(g.n)])];
    "shape remove" "n" |g| vec![nums(g.a.shape().clone().remove(g.n).as_vec())];
    "shape insert" "nm" |g| vec![nums(g.a.shape().clone().insert(g.n, g.m).as_vec())];
    "shape push" "n" |g| vec![nums(g.a.shape().clone().push(g.n).as_vec())];
    "shape pop" "" |g| vec![nums(g.a.shape().clone().pop().as_vec())];
    "shape cols" "n" |g| vec![nums(g.a.shape().clone().with_cols(g.n).as_vec())];
    "axis" "x" |g| vec![nums([Axis::axis(g.x).axis_from_rank(g.a.rank())])];
    "axis reduce" "x" |g| vec![sh(Axis::axis(g.x).reduce(g.a.shape()))];
    "axis reduce_row" "xn" |g| vec![sh(Axis::axis(g.x).reduce_row(g.a.shape(), g.n))];
    "subslice" "nm" |g| vec![g.a.subslice(g.n, g.m)];
    "subslice_flat" "nm" |g| vec![g.a.subslice_flat(g.n, g.m, [g.m])];
    "subslice_flat 2" "nm" |g| vec![g.a.subslice_flat(g.n, g.a.size() / 2, [2, g.m])];
    "slice" "n" |g| vec![g.a.slice(g.n)];
    "slice 2" "nm" |g| vec![g.a.slice((g.n, g.m))];
    "flatten" "" |g| vec![g.a.clone().flatten()];
    "reshape" "nm" |g| vec![g.a.clone().reshape([g.n, g.m])];
    "reshape 3" "nm" |g| vec![g.a.clone().reshape([g.m, 1, g.n])];
    "squeeze" "" |g| vec![g.a.clone().squeeze()];
    "squeeze_axis" "x" |g| vec![g.a.clone().squeeze_axis(g.x)];
    "expand_dims" "x" |g| vec![g.a.clone().expand_dims(g.x)];
    "append" "b" |g| vec![g.a.append(g.b)];
    "from_merge" "bnm" |g| vec![Tensor::from_merge(&[g.a.clone(), g.b.clone()], [g.n, g.m])];
    "from_vec" "nm" |g| vec![Tensor::from_vec(g.a.to_vec(), [g.n, g.m])];
    "from_box" "nm" |g| vec![Tensor::from_box(g.a.to_vec().into_boxed_slice(), [g.n, g.m])];
    "from_slice" "" |g| vec![Tensor::from_slice(g.a.as_slice())];
    "from tensors" "b" |g| vec![Tensor::from(&vec![g.a.clone(), g.b.clone()])];
    "from [tensors]" "b" |g| vec![Tensor::from([g.a.clone(), g.b.clone(), g.a.clone()])];
    "collect" "" |g| vec![g.a.iter().collect::<F>()];
    "map" "" |g| vec![g.a.map(|v| v + 1.)];
    "map_row" "" |g| vec![g.a.map_row::<3, f32>(|r| [r[0], r[r.len() - 1], r.len() as f32])];
    "map_expand" "" |g| vec![g.a.map_expand::<2, f32>(|v| [*v, v + 1.])];
    "map2" "b" |g| vec![g.a.map2(g.b, |a, b| a - b)];
    "map3" "b" |g| vec![g.a.map3(g.b, g.a, |a, b, c| a - b + c)];
    "map3'" "b" |g| vec![g.a.map3(g.a, g.b, |a, b, c| a - b + c)];
    "fold" "" |g| vec![g.a.fold(1f32, |s, v| s * 0.5 + v)];
    "fold_axis" "x" |g| vec![g.a.fold_axis(g.x, 1f32, |s, v| s * 0.5 + v)];
    "fold_row" "x" |g| vec![g.a.fold_row(g.x, [0f32; 2], |s, r| [s[1] + r[0], s[0] + r[r.len() - 1]])];
    "fold_row none" "" |g| vec![g.a.fold_row(None, [0f32; 2], |s, r| [s[1] + r[0], s[0] + r[r.len() - 1]])];
    "normalize" "x" |g| vec![g.a.normalize(g.x, 0f32, |s, v| s + v, |s| s, |s, v| v - s)];
    "reduce" "" |g| vec![g.a.reduce(|a, b| a + b)];
    "reduce_axis" "x" |g| vec![g.a.reduce_axis(g.x, |a, b| a + b)];
    "init" "nm" |g| { let mut k = 0.; vec![Tensor::init([g.n, g.m], || { k += 1.; k })] };
    "init_rindexed" "nm" |g| vec![Tensor::init_rindexed([g.n, g.m], |i| (i[0] * 10 + i[1]) as f32)];
    "fill" "nm" |g| vec![init::fill([g.n, g.m], 5f32), init::zeros::<f32>([g.m, g.n]), init::ones::<f32>([g.n])];
    "init_default" "nm" |g| vec![Tensor::<f32>::init_default([g.n, g.m])];
    "eye" "n" |g| vec![init::eye::<f32>(g.n), init::identity::<f32>(g.n), init::tri::<f32>(g.n)];
    "diagflat" "" |g| vec![g.a.diagflat()];
    "tril" "" |g| vec![g.a.tril(), g.a.triu()];
    "meshgrid" "b" |g| { let [x, y] = g.a.meshgrid(g.b); vec![x, y] };
    "meshgrid_ij" "b" |g| { let [x, y] = g.a.meshgrid_ij(g.b); vec![x, y] };
    "meshgrid 3" "b" |g| { let [x, y, z] = init::meshgrid([g.a, g.b, g.a]); vec![x, y, z] };
    "mgrid" "" |g| { let _ = g; let [x, y] = init::mgrid::<3, 2>(); vec![x, y] };
    "one_hot" "nm" |g| vec![init::one_hot([g.n, 0, g.m.min(3)], g.m)];
    "arange" "nm" |g| vec![init::arange(g.n as f32 % 50., g.m as f32 % 70., 1.5)];
    "linspace" "bn" |g| vec![init::linspace(g.a, g.b, g.n), g.a.linspace(g.b, g.n)];
    "geomspace" "bn" |g| vec![init::geomspace(g.a, g.b, g.n), g.a.geomspace(g.b, g.n)];
    "logspace" "bn" |g| vec![init::logspace(g.a, g.b, g.n), init::logspace_opt(g.a, g.b, g.n, 2.)];
    "random_normal" "nm" |g| vec![init::random_normal([g.n, g.m], init::Normal::seed(g.m as u64))];
    "random_uniform" "nm" |g| vec![init::random_uniform([g.n, g.m], init::Uniform::seed(g.n as u64))];
    "concatenate" "b" |g| vec![array::concatenate([g.a, g.b])];
    "concatenate 3" "b" |g| vec![array::concatenate(vec![g.b, g.a, g.b])];
    "concatenate_axis" "bx" |g| vec![array::concatenate_axis(g.x, (g.a, g.b))];
    "stack" "b" |g| vec![array::stack([g.a, g.b])];
    "stack_axis" "bx" |g| vec![array::stack_axis(g.x, [g.a, g.b])];
    "hstack" "b" |g| vec![array::hstack([g.a, g.b])];
    "vstack" "b" |g| vec![array::vstack([g.a, g.b])];
    "dstack" "b" |g| vec![array::dstack([g.a, g.b])];
    "concatenate none" "" |g| { let _ = g; vec![array::concatenate(Vec::<F>::new())] };
    "stack none" "" |g| { let _ = g; vec![array::stack(Vec::<F>::new())] };
    "unstack" "x" |g| g.a.unstack(g.x);
    "split" "n" |g| g.a.split(g.n);
    "split_axis" "xn" |g| g.a.split_axis(g.x, g.n);
    "split_axis at" "xnm" |g| g.a.split_axis(g.x, [g.n, g.m]);
    "vsplit" "n" |g| g.a.vsplit(g.n);
    "hsplit" "nm" |g| g.a.hsplit(vec![g.n, g.m]);
    "dsplit" "n" |g| g.a.dsplit(g.n);
    "tile" "n" |g| vec![g.a.tile(g.n)];
    "tile 1" "n" |g| vec![g.a.tile([g.n])];
    "tile 2" "nm" |g| vec![g.a.tile([g.n, g.m])];
    "tile 4" "nm" |g| vec![g.a.tile([1, g.n, 1, g.m])];
    "transpose" "" |g| vec![g.a.transpose(), g.a.t(), array::transpose(g.a)];
    "matmul" "b" |g| vec![g.a.matmul(g.b), linalg::matmul(g.a, g.b)];
    "matmul t" "b" |g| vec![g.a.matmul(&g.b.transpose())];
    "matvec" "b" |g| vec![g.a.matvec(g.b)];
    "+" "b" |g| vec![g.a + g.b];
    "- own" "b" |g| vec![g.a.clone() - g.b.clone()];
    "* x" "" |g| vec![g.a * 2., 2. / g.a, -g.a];
    "%" "b" |g| vec![g.a % g.b];
    "int ops" "b" |g| { let (a, b) = (ints(g.a), ints(g.b)); vec![of(&(&a & &b), |v| *v as f32), of(&a.max(&b), |v| *v as f32), of(&a.min(7), |v| *v as f32), of(&!&a, |v| *v as f32)] };
    "int fns" "" |g| { let a = ints(g.a); vec![of(&a.count_ones(), |v| *v as f32), of(&a.leading_zeros(), |v| *v as f32), of(&a.abs(), |v| *v as f32), of(&a.is_negative(), |v| *v as u8 as f32)] };
    "rotate" "b" |g| { let b = g.b.map(|v| *v as u32 % 32); vec![of(&ints(g.a).rotate_left(&b), |v| *v as f32)] };
    "complex" "b" |g| { let c = cplx(g.a, g.b); vec![c.re(), c.im(), of(&c.conj(), |v| v.im), c.norm()] };
    "complex ops" "b" |g| { let c = cplx(g.a, g.b); vec![of(&(&c * &c), |v| v.re), of(&(&c + &c), |v| v.im), of(&c.to_polar(), |v| v.1)] };
    "float fns" "" |g| vec![g.a.sqrt(), g.a.exp(), g.a.sin(), g.a.abs(), g.a.square(), g.a.floor()];
    "float fns 2" "b" |g| vec![g.a.atan2(g.b), g.a.powf(g.b), g.a.hypot(g.b), g.a.abs_sub(g.b)];
    "powi" "b" |g| vec![g.a.powi(&ints(g.b)), g.a.powi(2)];
    "sin_cos" "" |g| vec![of(&g.a.sin_cos(), |v| v.0 + v.1)];
    "mul_add" "b" |g| vec![g.a.clone().mul_add(g.b, g.a)];
    "reduce_hypot" "" |g| vec![g.a.reduce_hypot()];
    "reduce_min" "x" |g| vec![g.a.reduce_min(), g.a.reduce_min_axis(g.x)];
    "reduce_max" "x" |g| vec![g.a.reduce_max(), g.a.reduce_max_axis(g.x)];
    "reduce_mean" "x" |g| vec![g.a.reduce_mean(), g.a.reduce_mean_axis(g.x)];
    "reduce_std" "x" |g| vec![g.a.reduce_std(), g.a.reduce_std_axis(g.x)];
    "reduce_variance" "x" |g| vec![g.a.reduce_variance(), g.a.reduce_variance_axis(g.x)];
    "reduce_sum" "x" |g| vec![g.a.reduce_sum(), g.a.reduce_sum_axis(g.x)];
    "reduce_product" "x" |g| vec![g.a.reduce_product(), g.a.reduce_product_axis(g.x)];
    "normalize_unit" "" |g| vec![g.a.normalize_unit()];
    "frame" "nm" |g| vec![signal::frame(g.a, g.n, g.m)];
    "rfft_norm" "" |g| vec![signal::rfft_norm(g.a, ())];
    "rfft_norm n" "n" |g| vec![signal::rfft_norm(g.a, ().fft_length(g.n))];
    "histogram" "n" |g| { let (v, b) = stats::histogram(g.a, g.n); vec![v, b] };
    "histogram2d" "n" |g| { let (v, b, c) = stats::histogram2d(g.a, g.n); vec![v, b, c] };
    "==" "b" |g| vec![scalar((g.a == g.b) as u8 as f32), scalar(g.a.partial_cmp(g.b).map(|o| o as i8 as f32).unwrap_or(9.))];
    "debug" "" |g| vec![txt(format!("{:?} {:?}", g.a, g.a.shape()))];
}

/// Shape and bits of a result, for comparisons.
pub fn fshot(t: &F) -> (Vec<usize>, Vec<u32>) {
    (t.shape().as_vec(), t.iter().map(|v| v.to_bits()).collect())
}
