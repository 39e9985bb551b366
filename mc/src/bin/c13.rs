//! C13: operators and element-wise functions equal the scalar operation.
use std::fmt::Debug;
use std::ops;

use essay_tensor::tensor::{Tensor, Type};
use mc::*;
use num_complex::Complex;
use num_traits::{Float, MulAdd, PrimInt, Signed};

trait Same: Debug {
    fn same(&self, o: &Self) -> bool;
}

macro_rules! exact { ($($t:ty)*) => { $( impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } } )* } }
exact!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize bool String Sym);

macro_rules! float_same {
    ($t:ty, $bits:ty) => {
        impl Same for $t {
            /// equal up to 2 units in the last place; NaN equals NaN
            fn same(&self, o: &Self) -> bool {
                if self.is_nan() || o.is_nan() {
                    return self.is_nan() && o.is_nan();
                }
                if *self == 0. || *o == 0. {
                    return self == o && self.is_sign_negative() == o.is_sign_negative() || (self.abs() + o.abs() < <$t>::from_bits(3) && self.abs() + o.abs() > 0.);
                }
                self == o || (self.is_sign_negative() == o.is_sign_negative() && (self.to_bits() as i128 - o.to_bits() as i128).abs() <= 2)
            }
        }
    };
}
float_same!(f32, u32);
float_same!(f64, u64);

impl<T: Same + Clone> Same for Complex<T> {
    fn same(&self, o: &Self) -> bool {
        self.re.same(&o.re) && self.im.same(&o.im)
    }
}

impl<A: Same, B: Same> Same for (A, B) {
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}

fn vec_t<T: Type + Clone>(v: &[T], view: bool, fill: &T) -> Tensor<T> {
    if view {
        let mut w = vec![fill.clone(); 3];
        w.extend_from_slice(v);
        w.push(fill.clone());
        Tensor::from(w).subslice(3, v.len())
    } else {
        Tensor::from(v.to_vec())
    }
}

fn cmp<V: Type + Same>(what: &str, t: &Tensor<V>, want: &[V], arg: impl Fn(usize) -> String) -> R {
    if dims_of(t) != [want.len()] {
        return Err(format!("{what}: dimensions {:?}", dims_of(t)));
    }
    for (i, (a, b)) in t.iter().zip(want).enumerate() {
        if !a.same(b) {
            return Err(format!("{what}({}) gives {a:?}, the scalar operation {b:?}", arg(i)));
        }
    }
    Ok(())
}

/// A function of one tensor.
fn un<T: Type + Clone + Debug, V: Type + Same>(c: &mut Ctx, what: &str, vals: &[T], f: impl Fn(&T) -> V, t: impl Fn(Tensor<T>) -> Tensor<V>) -> R {
    un_dyn(c, what, vals, &f, &t)
}

#[inline(never)]
fn un_dyn<T: Type + Clone + Debug, V: Type + Same>(c: &mut Ctx, what: &str, vals: &[T], f: &dyn Fn(&T) -> V, t: &dyn Fn(Tensor<T>) -> Tensor<V>) -> R {
    let (mut good, mut want) = (vec![], vec![]);
    for v in vals {
        c.tick();
        match catch(|| f(v)) {
            Ok(r) => { good.push(v.clone()); want.push(r) }
            Err(_) => refused(&format!("{what}({v:?})"), || t(Tensor::from(vec![v.clone()])))?,
        }
    }
    if good.is_empty() {
        return Ok(());
    }
    for view in [false, true] {
        let r = ok(what, || t(vec_t(&good, view, &good[0])))?;
        cmp(what, &r, &want, |i| format!("{:?}", good[i]))?;
    }
    Ok(())
}

type F2<'a, T, U, V> = (&'a str, &'a dyn Fn(&Tensor<T>, &Tensor<U>) -> Tensor<V>);
type F1<'a, T, U, V> = (&'a str, &'a dyn Fn(&Tensor<T>, U) -> Tensor<V>);

/// A function of two tensors, in all its forms, over all pairs.
fn bin<T, U, V>(c: &mut Ctx, what: &str, xs: &[T], ys: &[U], f: impl Fn(T, U) -> V, forms: &[F2<T, U, V>], scalar: &[F1<T, U, V>]) -> R
where T: Type + Clone + Debug, U: Type + Clone + Debug, V: Type + Same {
    bin_dyn(c, what, xs, ys, &f, forms, scalar)
}

#[inline(never)]
fn bin_dyn<T, U, V>(c: &mut Ctx, what: &str, xs: &[T], ys: &[U], f: &dyn Fn(T, U) -> V, forms: &[F2<T, U, V>], scalar: &[F1<T, U, V>]) -> R
where T: Type + Clone + Debug, U: Type + Clone + Debug, V: Type + Same {
    let mut ga = vec![];
    let mut gb = vec![];
    let mut want = vec![];
    let mut bad = 0usize;
    for y in ys {
        let mut gx = vec![];
        let mut wx = vec![];
        for x in xs {
            match catch(|| (f(x.clone(), y.clone()), f(x.clone(), y.clone()))) {
                Ok((r, r2)) => {
                    ga.push(x.clone());
                    gb.push(y.clone());
                    want.push(r);
                    gx.push(x.clone());
                    wx.push(r2);
                }
                Err(_) => {
                    bad += 1;
                    let k = bad % forms.len();
                    c.tick();
                    refused(&format!("{what} {x:?} {y:?}"), || forms[k].1(&Tensor::from(vec![x.clone()]), &Tensor::from(vec![y.clone()])))?;
                    if !scalar.is_empty() {
                        let k = bad % scalar.len();
                        refused(&format!("{what} {x:?} {y:?}"), || scalar[k].1(&Tensor::from(vec![x.clone()]), y.clone()))?;
                    }
                }
            }
        }
        if gx.is_empty() {
            continue;
        }
        for (name, g) in scalar {
            c.ticks(gx.len() as u64);
            let r = ok(name, || g(&vec_t(&gx, true, &gx[0]), y.clone()))?;
            cmp(&format!("{what} {name}"), &r, &wx, |i| format!("{:?}, {y:?}", gx[i]))?;
        }
    }
    if ga.is_empty() {
        return Ok(());
    }
    for (k, (name, g)) in forms.iter().enumerate() {
        c.ticks(ga.len() as u64);
        let a = vec_t(&ga, k % 2 == 1, &ga[0]);
        let b = vec_t(&gb, k % 3 == 1, &gb[0]);
        let r = ok(name, || g(&a, &b))?;
        cmp(&format!("{what} {name}"), &r, &want, |i| format!("{:?}, {:?}", ga[i], gb[i]))?;
        if a.as_slice().len() != ga.len() {
            return Err("operand changed".into());
        }
    }
    Ok(())
}

macro_rules! op_forms {
    ($c:ident, $t:ty, $u:ty, $name:literal, $op:tt, $xs:expr, $ys:expr) => {
        $c.case(concat!(stringify!($t), " ", $name), || stringify!($u).into(), |c| {
            c.state(&(stringify!($t), stringify!($u), $name));
            bin(c, $name, $xs, $ys, |x: $t, y: $u| x $op y, &[
                ("&a&b", &|a, b| a $op b),
                ("a b", &|a: &Tensor<$t>, b: &Tensor<$u>| a.clone() $op b.clone()),
                ("&a b", &|a, b: &Tensor<$u>| a $op b.clone()),
                ("a &b", &|a: &Tensor<$t>, b| a.clone() $op b),
            ], &[
                ("&a x", &|a, x| a $op x),
                ("a x", &|a: &Tensor<$t>, x| a.clone() $op x),
            ])
        });
    };
}

/// Scalar on the left (defined for the built-in types).
macro_rules! left_forms {
    ($c:ident, $t:ty, $name:literal, $op:tt, $xs:expr) => {
        $c.case(concat!("x ", $name, " ", stringify!($t)), || "scalar left".into(), |c| {
            bin(c, $name, $xs, $xs, |y: $t, x: $t| x $op y, &[
                ("(unused)", &|a: &Tensor<$t>, b: &Tensor<$t>| b $op a),
            ], &[
                ("x &a", &|a: &Tensor<$t>, x: $t| x $op a),
                ("x a", &|a: &Tensor<$t>, x: $t| x $op a.clone()),
            ])
        });
    };
}

macro_rules! arith {
    ($c:ident, $t:ty, $xs:expr) => {{
        let xs: &[$t] = $xs;
        op_forms!($c, $t, $t, "+", +, xs, xs);
        op_forms!($c, $t, $t, "-", -, xs, xs);
        op_forms!($c, $t, $t, "*", *, xs, xs);
        op_forms!($c, $t, $t, "/", /, xs, xs);
        op_forms!($c, $t, $t, "%", %, xs, xs);
    }};
}
macro_rules! arith_left {
    ($c:ident, $t:ty, $xs:expr) => {{
        let xs: &[$t] = $xs;
        left_forms!($c, $t, "+", +, xs);
        left_forms!($c, $t, "-", -, xs);
        left_forms!($c, $t, "*", *, xs);
        left_forms!($c, $t, "/", /, xs);
        left_forms!($c, $t, "%", %, xs);
    }};
}
macro_rules! bits {
    ($c:ident, $t:ty, $xs:expr) => {{
        let xs: &[$t] = $xs;
        op_forms!($c, $t, $t, "&", &, xs, xs);
        op_forms!($c, $t, $t, "|", |, xs, xs);
        op_forms!($c, $t, $t, "^", ^, xs, xs);
        left_forms!($c, $t, "&", &, xs);
        left_forms!($c, $t, "|", |, xs);
        left_forms!($c, $t, "^", ^, xs);
        $c.case(concat!(stringify!($t), " !"), || "not".into(), |c| {
            un(c, "!a", xs, |v| !v.clone(), |t| !t)?;
            un(c, "!&a", xs, |v| !v.clone(), |t| !&t)
        });
    }};
}
macro_rules! shifts {
    ($c:ident, $t:ty, $xs:expr) => {{
        let xs: &[$t] = $xs;
        op_forms!($c, $t, $t, "<<", <<, xs, xs);
        op_forms!($c, $t, $t, ">>", >>, xs, xs);
        left_forms!($c, $t, "<<", <<, xs);
        left_forms!($c, $t, ">>", >>, xs);
        let by: Vec<u32> = (0..(<$t>::BITS + 2)).collect();
        op_forms!($c, $t, u32, "<<", <<, xs, &by);
        op_forms!($c, $t, u32, ">>", >>, xs, &by);
        let by: Vec<u8> = (0..(<$t>::BITS as u8 + 2)).collect();
        op_forms!($c, $t, u8, "<<", <<, xs, &by);
        op_forms!($c, $t, u8, ">>", >>, xs, &by);
    }};
}

macro_rules! minmax {
    ($c:ident, $t:ty, $xs:expr) => {{
        let xs: &[$t] = $xs;
        $c.case(concat!(stringify!($t), " min max"), || "".into(), |c| {
            bin(c, "min", xs, xs, |x: $t, y: $t| std::cmp::Ord::min(x, y), &[
                ("a.min(&b)", &|a, b| a.min(b)), ("a.min(b)", &|a, b| a.min(b.clone())),
            ], &[("a.min(x)", &|a: &Tensor<$t>, x| a.min(x))])?;
            bin(c, "max", xs, xs, |x: $t, y: $t| std::cmp::Ord::max(x, y), &[
                ("a.max(&b)", &|a, b| a.max(b)), ("a.max(b)", &|a, b| a.max(b.clone())),
            ], &[("a.max(x)", &|a: &Tensor<$t>, x| a.max(x))])
        });
    }};
}

macro_rules! signed {
    ($c:ident, $t:ty, $xs:expr) => {{
        let xs: &[$t] = $xs;
        $c.case(concat!(stringify!($t), " signed"), || "".into(), |c| {
            un(c, "abs", xs, |v| Signed::abs(v), |t| t.abs())?;
            un(c, "-a", xs, |v| -v.clone(), |t| -t)?;
            un(c, "-&a", xs, |v| -v.clone(), |t| -&t)?;
            un(c, "a.neg()", xs, |v| -v.clone(), |t| Tensor::neg(&t))?;
            un(c, "is_negative", xs, |v| Signed::is_negative(v), |t| t.is_negative())?;
            un(c, "is_positive", xs, |v| Signed::is_positive(v), |t| t.is_positive())?;
            bin(c, "abs_sub", xs, xs, |x: $t, y: $t| Signed::abs_sub(&x, &y), &[("abs_sub", &|a, b| a.abs_sub(b))], &[])
        });
    }};
}

macro_rules! squares {
    ($c:ident, $t:ty, $xs:expr) => {{
        let xs: &[$t] = $xs;
        $c.case(concat!(stringify!($t), " square"), || "".into(), |c| un(c, "square", xs, |v| v.clone() * v.clone(), |t| t.square()));
    }};
}

fn prim<T: Elem + PrimInt + Same>(c: &mut Ctx, xs: &[T], bits: u32) -> R {
    un(c, "count_ones", xs, |v| v.count_ones(), |t| t.count_ones())?;
    un(c, "count_zeros", xs, |v| v.count_zeros(), |t| t.count_zeros())?;
    un(c, "leading_ones", xs, |v| v.leading_ones(), |t| t.leading_ones())?;
    un(c, "leading_zeros", xs, |v| v.leading_zeros(), |t| t.leading_zeros())?;
    un(c, "trailing_ones", xs, |v| v.trailing_ones(), |t| t.trailing_ones())?;
    un(c, "trailing_zeros", xs, |v| v.trailing_zeros(), |t| t.trailing_zeros())?;
    un(c, "swap_bytes", xs, |v| v.swap_bytes(), |t| t.swap_bytes())?;
    un(c, "reverse_bits", xs, |v| v.reverse_bits(), |t| t.reverse_bits())?;
    un(c, "to_be", xs, |v| v.to_be(), |t| t.to_be())?;
    un(c, "to_le", xs, |v| v.to_le(), |t| t.to_le())?;
    let by: Vec<u32> = (0..bits * 2 + 2).collect();
    bin(c, "rotate_left", xs, &by, |x: T, n: u32| x.rotate_left(n), &[("rotate_left", &|a, b| a.rotate_left(b))], &[])?;
    bin(c, "rotate_right", xs, &by, |x: T, n: u32| x.rotate_right(n), &[("rotate_right", &|a, b| a.rotate_right(b))], &[])
}

macro_rules! float_unary {
    ($($f:ident)*) => {
        const UNARY: &[&str] = &[$(stringify!($f)),*];
        fn unary_f<T: Elem + Float + Same>(c: &mut Ctx, name: &str, xs: &[T]) -> R {
            match name {
                $(stringify!($f) => un(c, stringify!($f), xs, |v| Float::$f(*v), |t| t.$f()),)*
                _ => unreachable!(),
            }
        }
    };
}
float_unary!(floor ceil round trunc fract signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt sin asin sinh asinh cos acos cosh acosh tan atan tanh atanh exp_m1 ln_1p);

fn binary_f<T: Elem + Float + Same>(c: &mut Ctx, xs: &[T]) -> R {
    bin(c, "powf", xs, xs, |x: T, y: T| x.powf(y), &[("powf", &|a, b| a.powf(b))], &[])?;
    bin(c, "log", xs, xs, |x: T, y: T| x.log(y), &[("log", &|a, b| a.log(b))], &[])?;
    bin(c, "hypot", xs, xs, |x: T, y: T| x.hypot(y), &[("hypot", &|a, b| a.hypot(b))], &[])?;
    bin(c, "atan2", xs, xs, |x: T, y: T| x.atan2(y), &[("atan2", &|a, b| a.atan2(b))], &[])?;
    bin(c, "copysign", xs, xs, |x: T, y: T| x.copysign(y), &[("copysign", &|a, b| a.copysign(b))], &[])?;
    let n: Vec<i32> = vec![0, 1, 2, 3, 4, 5, 7, 10, 31, -1, -2, -3, -10, i32::MAX, i32::MIN];
    bin(c, "powi", xs, &n, |x: T, y: i32| x.powi(y), &[("powi", &|a: &Tensor<T>, b: &Tensor<i32>| a.powi(b)), ("powi own", &|a: &Tensor<T>, b: &Tensor<i32>| a.powi(b.clone()))], &[("powi x", &|a: &Tensor<T>, x: i32| a.powi(x))])?;
    un(c, "sin_cos", xs, |v| v.sin_cos(), |t| t.sin_cos())
}

fn muladd<T: Elem + MulAdd<Output = T> + Same + Copy>(c: &mut Ctx, xs: &[T]) -> R {
    for x in xs {
        let (mut a, mut b, mut d, mut w) = (vec![], vec![], vec![], vec![]);
        for y in xs {
            for z in xs {
                if let Ok(r) = catch(|| MulAdd::mul_add(*x, *y, *z)) {
                    a.push(*x);
                    b.push(*y);
                    d.push(*z);
                    w.push(r);
                }
            }
        }
        if w.is_empty() {
            continue;
        }
        c.ticks(w.len() as u64);
        let r = ok("mul_add", || MulAdd::mul_add(Tensor::from(a.clone()), &vec_t(&b, true, &b[0]), &Tensor::from(d.clone())))?;
        cmp("mul_add", &r, &w, |i| format!("{:?} {:?} {:?}", a[i], b[i], d[i]))?;
    }
    Ok(())
}

/// Complex functions; every formula is the one of num_complex.
fn complex<T>(c: &mut Ctx, parts: &[T]) -> R
where T: Elem + Float + Signed + Same {
    let mut xs = vec![];
    for a in parts {
        for b in parts {
            xs.push(Complex::new(*a, *b));
        }
    }
    let xs = &xs[..];
    un(c, "re", xs, |v| v.re, |t| t.re())?;
    un(c, "im", xs, |v| v.im, |t| t.im())?;
    un(c, "norm_sqr", xs, |v| v.norm_sqr(), |t| t.norm_sqr())?;
    un(c, "conj", xs, |v| v.conj(), |t| t.conj())?;
    un(c, "inv", xs, |v| v.inv(), |t| t.inv())?;
    un(c, "finv", xs, |v| v.finv(), |t| t.finv())?;
    un(c, "l1_norm", xs, |v| v.l1_norm(), |t| t.l1_norm())?;
    un(c, "norm", xs, |v| v.norm(), |t| t.norm())?;
    un(c, "arg", xs, |v| v.arg(), |t| t.arg())?;
    un(c, "to_polar", xs, |v| v.to_polar(), |t| t.to_polar())?;
    let polar: Vec<(T, T)> = xs.iter().map(|v| (v.re, v.im)).collect();
    un(c, "from_polar", &polar, |v| Complex::from_polar(v.0, v.1), |t| Tensor::from_polar(&t))?;
    bin(c, "scale", xs, parts, |x: Complex<T>, y: T| x.scale(y), &[("scale", &|a, b| a.scale(b))], &[])?;
    bin(c, "unscale", xs, parts, |x: Complex<T>, y: T| x.unscale(y), &[("unscale", &|a, b| a.unscale(b))], &[])?;
    bin(c, "powu", xs, &[0u32, 1, 2, 3, 5, 8], |x: Complex<T>, y: u32| x.powu(y), &[("powu", &|a, b| a.powu(b))], &[])?;
    bin(c, "expf", xs, parts, |x: Complex<T>, y: T| x.expf(y), &[("expf", &|a, b| a.expf(b))], &[])?;
    bin(c, "powc", xs, xs, |x: Complex<T>, y: Complex<T>| x.powc(y), &[("powc", &|a, b| a.powc(b))], &[])?;
    bin(c, "fdiv", xs, xs, |x: Complex<T>, y: Complex<T>| x.fdiv(y), &[("fdiv", &|a, b| a.fdiv(b))], &[])?;
    un(c, "-a", xs, |v| -*v, |t| -t)?;
    un(c, "square", xs, |v| *v * *v, |t| t.square())
}

fn complex_int(c: &mut Ctx) -> R {
    let v = [-3i32, -1, 0, 1, 2, 5];
    let mut xs = vec![];
    for a in v {
        for b in v {
            xs.push(Complex::new(a, b));
        }
    }
    un(c, "norm_sqr", &xs, |v| v.norm_sqr(), |t| t.norm_sqr())?;
    un(c, "conj", &xs, |v| v.conj(), |t| t.conj())?;
    un(c, "l1_norm", &xs, |v| v.l1_norm(), |t| t.l1_norm())?;
    bin(c, "scale", &xs, &v, |x: Complex<i32>, y: i32| x.scale(y), &[("scale", &|a, b| a.scale(b))], &[])?;
    bin(c, "powu", &xs, &[0u32, 1, 2, 3], |x: Complex<i32>, y: u32| x.powu(y), &[("powu", &|a, b| a.powu(b))], &[])
}

/// A type whose operators write down what was computed.
#[derive(Clone, Debug, PartialEq)]
struct Sym(String);
impl Type for Sym {}

#[derive(Clone, Debug, PartialEq)]
struct Rhs(u32);
impl Type for Rhs {}

macro_rules! sym_ops {
    ($($tr:ident $f:ident $s:literal)*) => { $(
        impl ops::$tr<Rhs> for Sym { type Output = Sym; fn $f(self, o: Rhs) -> Sym { Sym(format!("({}{}{})", self.0, $s, o.0)) } }
        impl ops::$tr<Sym> for Sym { type Output = Sym; fn $f(self, o: Sym) -> Sym { Sym(format!("({}{}{})", self.0, $s, o.0)) } }
    )* };
}
sym_ops!(Add add "+" Sub sub "-" Mul mul "*" Div div "/" Rem rem "%" BitAnd bitand "&" BitOr bitor "|" BitXor bitxor "^" Shl shl "<<" Shr shr ">>");

fn alphabet<T: PrimInt>(bits: u32) -> Vec<T> {
    let mut v = vec![T::zero(), T::one(), T::max_value(), T::min_value(), T::max_value() - T::one(), T::min_value() + T::one()];
    for k in [2usize, 3, 5, 7, 10, 13, 31, 63, 64, 100, 127] {
        if let Some(x) = T::from(k) {
            v.push(x);
            v.push(T::zero().checked_sub(&x).unwrap_or(x));
        }
    }
    for s in [1, 7, 8, bits / 2, bits - 2, bits - 1] {
        if s < bits {
            v.push(T::one().unsigned_shl(s % bits));
        }
    }
    let pat = |m: u8| {
        let mut x = T::zero();
        for i in 0..bits / 8 {
            x = x | T::from(m & 0x7f).unwrap().unsigned_shl(8 * i);
        }
        x
    };
    v.push(pat(0x55));
    v.push(pat(0x2A));
    v.push(!pat(0x31));
    let mut out: Vec<T> = vec![];
    for x in v {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}

fn floats32() -> Vec<f32> {
    let mut v = vec![0., -0., 1., -1., 0.5, -0.5, 1.5, 2.5, -2.5, 3., 10., 1e-3, 0.1, -0.3, 2., 100., 255.5, 16777216., 16777215.5, 1e10, -1e10, 3.1415927, 1.5707964, 0.70710677, 0.9999999, 1.0000001,
        f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, -1e-45, 1e-40, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::EPSILON, 88.7, -104., 1e38, 7e-9];
    v.push(f32::from_bits(0x7f7fffff - 1));
    v
}

fn floats64() -> Vec<f64> {
    let mut v: Vec<f64> = floats32().iter().map(|x| *x as f64).collect();
    v.extend([f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e300, -1e-300, 0.1, 9007199254740993., 709.7, f64::EPSILON]);
    v
}

/// f32 bit patterns: all sign/exponent/upper mantissa combinations.
fn patterns(shift: u32, extra: &[u32]) -> Vec<f32> {
    let mut v = Vec::new();
    for hi in 0..(1u64 << (32 - shift)) {
        for e in extra {
            v.push(f32::from_bits(((hi as u32) << shift) | e));
        }
    }
    v
}

macro_rules! int_type {
    ($c:ident, $t:ty, $xs:expr) => {{
        let xs: Vec<$t> = $xs;
        arith!($c, $t, &xs);
        arith_left!($c, $t, &xs);
        bits!($c, $t, &xs);
        shifts!($c, $t, &xs);
        minmax!($c, $t, &xs);
        squares!($c, $t, &xs);
        $c.case(concat!(stringify!($t), " integer"), || "".into(), |c| prim::<$t>(c, &xs, <$t>::BITS));
        let few: Vec<$t> = xs.iter().cloned().step_by((xs.len() / 24).max(1)).collect();
        $c.case(concat!(stringify!($t), " mul_add"), || "".into(), |c| muladd::<$t>(c, &few));
    }};
}

fn sweep<T: Elem + Same + Copy + ops::Sub<Output = T> + ops::Add<Output = T> + ops::Mul<Output = T>>(c: &mut Ctx, n: usize) -> R {
    // operand order and remainders at every length
    let mb = M::<T>::new(&[n], (0..n).map(|i| T::nth(i % 11 + 1)).collect());
    let ma = M::<T>::new(&[n], (0..n).map(|i| T::nth(i % 9 + 11 + (i / 64) % 3)).collect());
    for (p, q) in [(Prov::Own, Prov::Own), (Prov::Mid, Prov::Tail)] {
        let (a, b) = (build(&ma, p), build(&mb, q));
        let sub: Vec<T> = ma.data.iter().zip(&mb.data).map(|(x, y)| *x - *y).collect();
        let mul: Vec<T> = ma.data.iter().zip(&mb.data).map(|(x, y)| *x * (*y - *y + T::nth(3))).collect();
        let adds: Vec<T> = ma.data.iter().map(|x| *x + T::nth(2)).collect();
        let subs: Vec<T> = ma.data.iter().map(|x| *x - T::nth(2)).collect();
        c.ticks(4 * n as u64);
        cmp("&a - &b", &ok("-", || &a - &b)?, &sub, |i| format!("position {i} of {n}"))?;
        cmp("a - b", &ok("-", || a.clone() - b.clone())?, &sub, |i| format!("position {i} of {n}"))?;
        cmp("a * 3", &ok("*", || &a * T::nth(3))?, &mul, |i| format!("position {i} of {n}"))?;
        cmp("a + 2", &ok("+", || a.clone() + T::nth(2))?, &adds, |i| format!("position {i} of {n}"))?;
        cmp("a - s", &ok("-", || &a - Tensor::from(T::nth(2)))?, &subs, |i| format!("position {i} of {n}"))?;
    }
    Ok(())
}

fn main() {
    run("C13", |c| {
        let strs: Vec<Sym> = ["a", "b", "c"].iter().map(|s| Sym(s.to_string())).collect();
        let rhs: Vec<Rhs> = (1..4).map(Rhs).collect();
        arith!(c, Sym, &strs);
        op_forms!(c, Sym, Sym, "&", &, &strs, &strs);
        op_forms!(c, Sym, Sym, "|", |, &strs, &strs);
        op_forms!(c, Sym, Sym, "^", ^, &strs, &strs);
        op_forms!(c, Sym, Sym, "<<", <<, &strs, &strs);
        op_forms!(c, Sym, Sym, ">>", >>, &strs, &strs);
        op_forms!(c, Sym, Rhs, "+", +, &strs, &rhs);
        op_forms!(c, Sym, Rhs, "-", -, &strs, &rhs);
        op_forms!(c, Sym, Rhs, "*", *, &strs, &rhs);
        op_forms!(c, Sym, Rhs, "/", /, &strs, &rhs);
        op_forms!(c, Sym, Rhs, "%", %, &strs, &rhs);
        op_forms!(c, Sym, Rhs, "&", &, &strs, &rhs);
        op_forms!(c, Sym, Rhs, "|", |, &strs, &rhs);
        op_forms!(c, Sym, Rhs, "^", ^, &strs, &rhs);
        op_forms!(c, Sym, Rhs, "<<", <<, &strs, &rhs);
        op_forms!(c, Sym, Rhs, ">>", >>, &strs, &rhs);
        squares!(c, Sym, &strs);

        int_type!(c, i8, (i8::MIN..=i8::MAX).collect());
        int_type!(c, u8, (u8::MIN..=u8::MAX).collect());
        int_type!(c, i16, alphabet(16));
        int_type!(c, u16, alphabet(16));
        int_type!(c, i32, alphabet(32));
        int_type!(c, u32, alphabet(32));
        int_type!(c, i64, alphabet(64));
        int_type!(c, u64, alphabet(64));
        int_type!(c, i128, alphabet(128));
        int_type!(c, u128, alphabet(128));
        int_type!(c, isize, alphabet(64));
        int_type!(c, usize, alphabet(64));
        signed!(c, i8, &(i8::MIN..=i8::MAX).collect::<Vec<_>>());
        signed!(c, i16, &(i16::MIN..=i16::MAX).step_by(117).collect::<Vec<_>>());
        signed!(c, i16, &alphabet(16));
        signed!(c, i32, &alphabet(32));
        signed!(c, i64, &alphabet(64));
        signed!(c, i128, &alphabet(128));
        signed!(c, isize, &alphabet(64));
        let all16: Vec<i16> = (i16::MIN..=i16::MAX).collect();
        c.case("i16 all", || "unary".into(), |c| {
            un(c, "abs", &all16, |v| Signed::abs(v), |t| t.abs())?;
            un(c, "-a", &all16, |v| -*v, |t| -t)?;
            un(c, "count_ones", &all16, |v| v.count_ones(), |t| t.count_ones())
        });

        bits!(c, bool, &[false, true]);
        minmax!(c, bool, &[false, true]);
        let words: Vec<String> = ["", "a", "ab", "b", "B", "zz"].iter().map(|s| s.to_string()).collect();
        minmax!(c, String, &words);

        let f32s = floats32();
        let f64s = floats64();
        arith!(c, f32, &f32s);
        arith_left!(c, f32, &f32s);
        arith!(c, f64, &f64s);
        arith_left!(c, f64, &f64s);
        signed!(c, f32, &f32s);
        signed!(c, f64, &f64s);
        squares!(c, f32, &f32s);
        squares!(c, f64, &f64s);
        c.case("f32 binary", || "".into(), |c| binary_f::<f32>(c, &f32s));
        c.case("f64 binary", || "".into(), |c| binary_f::<f64>(c, &f64s));
        c.case("f32 mul_add", || "".into(), |c| muladd::<f32>(c, &f32s));
        c.case("f64 mul_add", || "".into(), |c| muladd::<f64>(c, &f64s[..40]));
        let pats = if c.quick() { patterns(16, &[0, 0x8001]) } else { patterns(11, &[0, 1, 0x3ff, 0x7ff]) };
        for name in UNARY {
            c.case("f32 unary", || format!("{name}"), |c| { c.state(name); unary_f::<f32>(c, name, &pats) });
            let p64: Vec<f64> = pats.iter().map(|v| *v as f64).chain(f64s.iter().cloned()).collect();
            c.case("f64 unary", || format!("{name}"), |c| unary_f::<f64>(c, name, &p64));
        }
        let parts: Vec<f32> = vec![0., -0., 1., -1., 0.5, 3., -2.5, 1e10, 1e-20, f32::INFINITY, f32::NAN];
        c.case("complex f32", || "".into(), |c| complex::<f32>(c, &parts));
        let parts64: Vec<f64> = parts.iter().map(|v| *v as f64).collect();
        c.case("complex f64", || "".into(), |c| complex::<f64>(c, &parts64));
        c.case("complex i32", || "".into(), |c| complex_int(c));
        let mut cs = vec![];
        for a in &parts {
            for b in &parts {
                cs.push(Complex::new(*a, *b));
            }
        }
        arith!(c, Complex<f32>, &cs);
        op_forms!(c, Complex<f32>, f32, "*", *, &cs, &parts);
        op_forms!(c, Complex<f32>, f32, "/", /, &cs, &parts);
        op_forms!(c, Complex<f32>, f32, "+", +, &cs, &parts);
        op_forms!(c, Complex<f32>, f32, "-", -, &cs, &parts);

        for n in lengths(c, 1) {
            c.case("length i32", || format!("{n}"), |c| { c.state(&n); sweep::<i32>(c, n) });
            c.case("length f32", || format!("{n}"), |c| sweep::<f32>(c, n));
            c.case("length f64", || format!("{n}"), |c| sweep::<f64>(c, n));
            c.case("length u8", || format!("{n}"), |c| sweep::<u8>(c, n));
            c.case("length i64", || format!("{n}"), |c| sweep::<i64>(c, n));
        }
    });
}
