//! Operations that only need `Clone`, for elements of every size and alignment.

use essay_tensor::array;
use essay_tensor::init;
use essay_tensor::tensor::{Tensor, Type};

use crate::elem::Elem;
use crate::track;

#[derive(Clone, Debug, PartialEq)]
#[repr(align(64))]
pub struct Al(pub u64, pub Box<u64>);
impl Type for Al {}
impl Elem for Al {
    fn nth(i: usize) -> Al { Al(i as u64, Box::new(i as u64)) }
    fn poison(i: usize) -> Al { Al(!(i as u64), Box::new(!(i as u64))) }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Odd(pub [u8; 3]);
impl Type for Odd {}
impl Elem for Odd {
    fn nth(i: usize) -> Odd { Odd([i as u8, (i >> 8) as u8, 7]) }
    fn poison(i: usize) -> Odd { Odd([!(i as u8), 1, 2]) }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Wide(pub u128, pub u8);
impl Type for Wide {}
impl Elem for Wide {
    fn nth(i: usize) -> Wide { Wide(i as u128, i as u8) }
    fn poison(i: usize) -> Wide { Wide(!(i as u128), 0) }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Owned(pub String, pub Vec<u32>);
impl Type for Owned {}
impl Elem for Owned {
    fn nth(i: usize) -> Owned { Owned(format!("v{i}"), (0..i as u32 % 3).collect()) }
    fn poison(i: usize) -> Owned { Owned(format!("p{i}"), vec![]) }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Unit;
impl Type for Unit {}
impl Elem for Unit {
    fn nth(_: usize) -> Unit { Unit }
    fn poison(_: usize) -> Unit { Unit }
}

pub type Gen<E> = fn(&Tensor<E>) -> Vec<Tensor<E>>;

pub fn gens<E: Elem>() -> Vec<(&'static str, Gen<E>)> {
    fn v<E: Elem>(t: &Tensor<E>) -> Vec<E> { t.iter().cloned().collect() }
    fn spare<E: Elem>(t: &Tensor<E>) -> Vec<E> { let mut x = Vec::with_capacity(t.size() * 2 + 5); x.extend(t.iter().cloned()); x }
    vec![
        ("clone", |t| vec![t.clone()]),
        ("from_vec", |t| vec![Tensor::from_vec(v(t), t.shape())]),
        ("from_vec spare", |t| vec![Tensor::from_vec(spare(t), t.shape())]),
        ("from_box", |t| vec![Tensor::from_box(v(t).into_boxed_slice(), t.shape())]),
        ("From<Vec>", |t| vec![Tensor::from(v(t)), Tensor::from(spare(t))]),
        ("From<Vec<[;2]>>", |t| { let x: Vec<[E; 2]> = t.iter().map(|e| [e.clone(), e.clone()]).collect(); vec![Tensor::from(x)] }),
        ("From<Vec<[;3]>> spare", |t| { let mut x: Vec<[E; 3]> = Vec::with_capacity(t.size() + 7); x.extend(t.iter().map(|e| [e.clone(), e.clone(), e.clone()])); vec![Tensor::from(x)] }),
        ("From<Vec<[;1]>>", |t| { let x: Vec<[E; 1]> = t.iter().map(|e| [e.clone()]).collect(); vec![Tensor::from(x)] }),
        ("From<[;4]>", |t| vec![Tensor::from([0, 1, 2, 3].map(|i| t.get(i).cloned().unwrap_or_else(|| E::nth(i))))]),
        ("From<[[;2];2]>", |t| vec![Tensor::from([[0, 1], [2, 3]].map(|r| r.map(|i| t.get(i).cloned().unwrap_or_else(|| E::nth(i)))))]),
        ("collect", |t| vec![t.iter().cloned().collect()]),
        ("collect long", |t| vec![t.iter().cloned().chain((0..70).map(E::nth)).collect()]),
        ("collect filter", |t| { let mut k = 0; vec![t.iter().cloned().chain((0..70).map(E::nth)).filter(|_| { k += 1; k % 3 == 0 }).collect()] }),
        ("map", |t| vec![t.map(|e| e.clone())]),
        ("map thin", |t| { let u: Tensor<u8> = t.map(|_| 3u8); vec![u.map(|k| E::nth(*k as usize))] }),
        ("map wide", |t| { let u: Tensor<Al> = t.map(|_| Al::nth(3)); vec![u.map(|k| E::nth(k.0 as usize))] }),
        ("map_row", |t| vec![t.map_row::<2, E>(|r| [r[0].clone(), r[r.len() - 1].clone()])]),
        ("map_expand", |t| vec![t.map_expand::<3, E>(|e| [e.clone(), e.clone(), e.clone()])]),
        ("map2", |t| vec![t.map2(t, |a, _| a.clone())]),
        ("init", |t| vec![Tensor::init(t.shape(), || E::nth(4)), Tensor::init_rindexed(t.shape(), |i| E::nth(i.len()))]),
        ("fill", |t| vec![init::fill(t.shape(), E::nth(3))]),
        ("fold", |t| vec![t.fold(E::nth(1), |_, v| v.clone())]),
        ("fold_axis", |t| vec![t.fold_axis(0, E::nth(1), |_, v| v.clone()), t.fold_axis(-1, E::nth(1), |_, v| v.clone())]),
        ("reduce_axis", |t| vec![t.reduce_axis(0, |_, v| v), t.reduce_axis(-1, |a, _| a)]),
        ("reduce", |t| vec![t.reduce(|_, v| v)]),
        ("normalize", |t| vec![t.normalize(0, E::nth(0), |_, v| v.clone(), |s| s, |_, v| v.clone())]),
        ("append", |t| vec![t.append(t), t.append(t.clone())]),
        ("from_merge", |t| vec![Tensor::from_merge(&[t.clone(), t.clone(), t.clone()], [t.size() * 3])]),
        ("views", |t| { let n = t.size(); vec![t.subslice_flat(n / 3, n - n / 3, [n - n / 3]), t.slice(0), t.subslice(0, t.dim(0))] }),
        ("reshape", |t| { let n = t.size(); vec![t.clone().reshape([1, n]), t.clone().flatten(), t.clone().squeeze(), t.clone().expand_dims(0)] }),
        ("concatenate", |t| vec![array::concatenate([t, t]), array::concatenate_axis(-1, [t, t, t])]),
        ("stack", |t| vec![array::stack([t, t]), array::stack_axis(-1, [t, t])]),
        ("hstack", |t| vec![array::hstack([t, t]), array::vstack([t, t])]),
        ("dstack", |t| vec![array::dstack([t, t])]),
        ("unstack", |t| t.unstack(0)),
        ("unstack last", |t| t.unstack(-1)),
        ("split", |t| t.split_axis(-1, [1])),
        ("tile", |t| vec![t.tile([2, 2])]),
        ("transpose", |t| vec![t.transpose()]),
        ("meshgrid", |t| { let f = t.clone().flatten(); let [a, b] = f.meshgrid(&f); vec![a, b] }),
        ("from_slice", |t| vec![Tensor::from_slice(t.as_slice()), Tensor::from(t.as_slice())]),
        ("nested vecs", |t| { let x = vec![v(t), v(t)]; vec![Tensor::from(&x)] }),
        ("scalar", |_| vec![Tensor::from(E::nth(1)), Tensor::from(Some(E::nth(1))), Tensor::from(None)]),
        ("Zs", |t| { let u = t.map(|_| track::Zs::new()); let w = u.map2(&u, |a, _| a.clone()); vec![w.map(|_| E::nth(1))] }),
    ]
}

