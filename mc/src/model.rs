//! The reference model: a list of dimensions and the elements in row-major
//! order, and the ways an equal tensor can come about (provenances).

use std::fmt::Debug;

use essay_tensor::tensor::{Shape, Tensor, Type};

use crate::{ctx::R, elem::Elem, shapes::size};

#[derive(Clone, PartialEq, Debug)]
pub struct M<T> {
    pub dims: Vec<usize>,
    pub data: Vec<T>,
}

impl<T: Elem> M<T> {
    /// Distinct elements by position, starting at `base`.
    pub fn seq(dims: &[usize], base: usize) -> M<T> {
        M { dims: dims.to_vec(), data: (0..size(dims)).map(|i| T::nth(base + i)).collect() }
    }
}

impl<T> M<T> {
    pub fn new(dims: &[usize], data: Vec<T>) -> M<T> {
        assert_eq!(size(dims), data.len(), "harness: model size");
        M { dims: dims.to_vec(), data }
    }
}

pub fn shape(dims: &[usize]) -> Shape {
    Shape::from(dims)
}

/// How the tensor given to the operation came about.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Prov {
    Own,
    Mid,
    Front,
    Tail,
    Nested,
    Outer,
    OuterTail,
    Clone,
    Mapped,
    Slice,
    Reshaped,
}

pub const ALL_PROV: [Prov; 11] = [
    Prov::Own, Prov::Mid, Prov::Front, Prov::Tail, Prov::Nested, Prov::Outer,
    Prov::OuterTail, Prov::Clone, Prov::Mapped, Prov::Slice, Prov::Reshaped,
];

pub const FEW_PROV: [Prov; 3] = [Prov::Own, Prov::Mid, Prov::OuterTail];

pub fn build<T: Elem>(m: &M<T>, prov: Prov) -> Tensor<T> {
    let sh = shape(&m.dims);
    let n = m.data.len();
    let flat = |front: usize, back: usize| -> Tensor<T> {
        let mut v: Vec<T> = (0..front).map(T::poison).collect();
        v.extend(m.data.iter().cloned());
        v.extend((0..back).map(|i| T::poison(front + i)));
        let len = v.len();
        Tensor::from_vec(v, shape(&[len]))
    };
    match prov {
        Prov::Own => Tensor::from_vec(m.data.clone(), sh),
        Prov::Mid => flat(3, 5).subslice_flat(3, n, sh),
        Prov::Front => flat(0, 7).subslice_flat(0, n, sh),
        Prov::Tail => flat(2, 0).subslice_flat(2, n, sh),
        Prov::Nested => flat(9, 6).subslice_flat(4, n + 8, shape(&[n + 8])).subslice_flat(5, n, sh),
        Prov::Outer | Prov::OuterTail => {
            if m.dims.is_empty() || n == 0 {
                return build(m, Prov::Mid);
            }
            let row = n / m.dims[0];
            let back = if prov == Prov::Outer { 1 } else { 0 };
            let mut d = m.dims.clone();
            d[0] += 2 + back;
            flat(2 * row, back * row).reshape(shape(&d)).subslice(2, m.dims[0])
        }
        Prov::Clone => {
            let t = Tensor::from_vec(m.data.clone(), sh);
            let u = t.clone();
            drop(t);
            u
        }
        Prov::Mapped => Tensor::from_vec(m.data.clone(), sh).map(|v| v.clone()),
        Prov::Slice => {
            if m.dims.len() >= 6 || n == 0 {
                return build(m, Prov::Tail);
            }
            let mut d = m.dims.clone();
            d.insert(0, 3);
            flat(n, n).reshape(shape(&d)).slice(1)
        }
        Prov::Reshaped => flat(0, 0).reshape(sh),
    }
}

pub fn dims_of<T: Type>(t: &Tensor<T>) -> Vec<usize> {
    t.shape().as_vec()
}

/// The tensor has exactly the dimensions and elements of the model.
pub fn same<T: Type + PartialEq + Debug>(t: &Tensor<T>, m: &M<T>) -> R {
    same_by(t, &m.dims, &m.data, |a, b| a == b)
}

pub fn same_by<T: Type + Debug, U: Debug>(t: &Tensor<T>, dims: &[usize], data: &[U], eq: impl Fn(&T, &U) -> bool) -> R {
    let got = dims_of(t);
    if got != dims {
        return Err(format!("dimensions {got:?}, expected {dims:?}"));
    }
    if t.shape() != &shape(dims) {
        return Err(format!("shape {:?} does not compare equal to a fresh shape {dims:?}", t.shape()));
    }
    if t.size() != data.len() {
        return Err(format!("size {} with dimensions {dims:?}", t.size()));
    }
    let s = t.as_slice();
    if s.len() != data.len() {
        return Err(format!("slice length {} with dimensions {dims:?}", s.len()));
    }
    for (i, (a, b)) in s.iter().zip(data).enumerate() {
        if !eq(a, b) {
            return Err(format!("element {i} of {dims:?} is {a:?}, expected {b:?}"));
        }
    }
    Ok(())
}

pub fn ctx_err(what: &str, r: R) -> R {
    r.map_err(|e| format!("{what}: {e}"))
}

/// Equal floats: same value or both NaN (the sign of zero is compared).
pub fn feq(a: f32, b: f32) -> bool {
    (a.is_nan() && b.is_nan()) || (a == b && a.is_sign_negative() == b.is_sign_negative())
}

pub fn deq(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || (a == b && a.is_sign_negative() == b.is_sign_negative())
}

/// |a-b| <= tol * max(1, |b|), or both NaN, or the same infinity.
pub fn near(a: f32, b: f64, tol: f64) -> bool {
    let a = a as f64;
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.is_infinite() || b.is_infinite() {
        return a == b;
    }
    (a - b).abs() <= tol * b.abs().max(1.)
}
