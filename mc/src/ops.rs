//! The operations that create tensors from tensors, on tracked elements.

use essay_tensor::array;
use essay_tensor::init;
use essay_tensor::tensor::{scalar, Tensor};

use crate::track::{point, Tr};

pub type T = Tensor<Tr>;
pub type Op = fn(&T, &T) -> Vec<T>;

fn cb(v: i64) -> Tr {
    point();
    Tr::new(v)
}

fn vals(t: &T) -> Vec<Tr> {
    t.iter().map(|v| Tr::new(v.get())).collect()
}

fn nest2(t: &T) -> Vec<Vec<Tr>> {
    let n = t.shape().cols().max(1);
    t.as_slice().chunks(n).map(|c| c.iter().map(|v| Tr::new(v.get())).collect()).collect()
}

fn arr<const N: usize>(k: i64) -> [Tr; N] {
    std::array::from_fn(|i| Tr::new(k + i as i64))
}

macro_rules! ops {
    ($($name:literal, |$a:ident, $b:ident| $e:expr;)*) => {
        pub const OPS: &[(&str, Op)] = &[$(($name, |$a: &T, $b: &T| { let _ = ($a, $b); $e })),*];
    };
}

ops! {
    "clone", |a, b| vec![a.clone()];
    "clone both", |a, b| vec![a.clone(), b.clone(), a.clone()];
    "From<&Tensor>", |a, b| vec![T::from(a)];
    "map", |a, b| vec![a.map(|v| cb(v.get() + 1))];
    "map clone", |a, b| vec![a.map(|v| v.clone())];
    "map_row 1", |a, b| vec![a.map_row::<1, Tr>(|r| [cb(r[0].get())])];
    "map_row 2", |a, b| vec![a.map_row::<2, Tr>(|r| [cb(r[0].get()), r[r.len() - 1].clone()])];
    "map_row 3", |a, b| vec![a.map_row::<3, Tr>(|r| [cb(1), cb(2), r[0].clone()])];
    "map_expand 1", |a, b| vec![a.map_expand::<1, Tr>(|v| [v.clone()])];
    "map_expand 2", |a, b| vec![a.map_expand::<2, Tr>(|v| [cb(v.get()), v.clone()])];
    "map2", |a, b| vec![a.map2(b, |x, y| cb(x.get() * 3 + y.get()))];
    "map2 clone", |a, b| vec![a.map2(b, |x, _| x.clone())];
    "map2 self", |a, b| vec![a.map2(a, |x, y| cb(x.get() - y.get()))];
    "map2 scalar", |a, b| vec![a.map2(&scalar(Tr::new(5)), |x, y| cb(x.get() + y.get()))];
    "map3", |a, b| vec![a.map3(b, a, |x, y, z| cb(x.get() + y.get() * z.get()))];
    "init", |a, b| { let mut k = 0; vec![Tensor::init(a.shape(), || { k += 1; cb(k) })] };
    "init_rindexed", |a, b| vec![Tensor::init_rindexed(a.shape(), |i| cb(i.iter().sum::<usize>() as i64))];
    "init_default", |a, b| vec![Tensor::<Tr>::init_default(a.shape())];
    "fold", |a, b| vec![a.fold(Tr::new(7), |s, v| cb(s.get() * 3 + v.get()))];
    "fold_axis none", |a, b| vec![a.fold_axis(None, Tr::new(7), |s, v| cb(s.get() * 3 + v.get()))];
    "fold_axis 0", |a, b| vec![a.fold_axis(0, Tr::new(7), |s, v| cb(s.get() * 3 + v.get()))];
    "fold_axis -1", |a, b| vec![a.fold_axis(-1, Tr::new(7), |s, v| cb(s.get() * 3 + v.get()))];
    "fold_row none", |a, b| vec![a.fold_row(None, arr::<2>(1), |s, r| [cb(s[1].get() + r[0].get()), s[0].clone()])];
    "fold_row 0", |a, b| vec![a.fold_row(0, arr::<2>(1), |s, r| [cb(s[1].get() + r[0].get()), s[0].clone()])];
    "normalize none", |a, b| vec![a.normalize(None, Tr::new(1), |s, v| cb(s.get() + v.get()), |s| s, |s, v| cb(v.get() - s.get()))];
    "normalize 0", |a, b| vec![a.normalize(0, Tr::new(1), |s, v| cb(s.get() + v.get()), |s| cb(s.get()), |s, v| cb(v.get() - s.get()))];
    "normalize -1", |a, b| vec![a.normalize(-1, Tr::new(1), |s, v| cb(s.get() + v.get()), |s| s, |s, v| cb(v.get() - s.get()))];
    "reduce", |a, b| vec![a.reduce(|x, y| cb(x.get() * 3 + y.get()))];
    "reduce_axis none", |a, b| vec![a.reduce_axis(None, |x, y| cb(x.get() * 3 + y.get()))];
    "reduce_axis 0", |a, b| vec![a.reduce_axis(0, |x, y| cb(x.get() * 3 + y.get()))];
    "reduce_axis -1", |a, b| vec![a.reduce_axis(-1, |_, y| y)];
    "reduce_sum", |a, b| vec![a.reduce_sum()];
    "reduce_sum_axis", |a, b| vec![a.reduce_sum_axis(0)];
    "reduce_product", |a, b| vec![a.reduce_product()];
    "reduce_product_axis", |a, b| vec![a.reduce_product_axis(-1)];
    "subslice", |a, b| { let n = a.dim(0); vec![a.subslice(0, 1), a.subslice(n - 1, 1)] };
    "subslice rest", |a, b| { let n = a.dim(0); vec![a.subslice(1, n - 1)] };
    "subslice_flat", |a, b| { let n = a.size(); vec![a.subslice_flat(n / 2, n - n / 2, [n - n / 2])] };
    "subslice_flat empty", |a, b| vec![a.subslice_flat(1, 0, [0])];
    "slice", |a, b| vec![a.slice(a.dim(0) - 1)];
    "slice 2", |a, b| vec![a.slice((0, a.dim(1) - 1))];
    "slice temp", |a, b| vec![a.map(|v| v.clone()).slice(0)];
    "flatten", |a, b| vec![a.clone().flatten()];
    "reshape", |a, b| vec![a.clone().reshape([1, a.size(), 1])];
    "reshape temp", |a, b| { let n = a.size(); vec![a.map(|v| v.clone()).reshape([n, 1])] };
    "squeeze", |a, b| vec![a.clone().squeeze()];
    "squeeze_axis", |a, b| vec![a.clone().squeeze_axis(0)];
    "expand_dims", |a, b| vec![a.clone().expand_dims(0)];
    "append", |a, b| vec![a.append(b)];
    "append owned", |a, b| vec![a.append(b.map(|v| v.clone()))];
    "append self", |a, b| vec![a.append(a)];
    "from_merge", |a, b| { let n = a.size() + b.size(); vec![Tensor::from_merge(&[a.clone(), b.clone()], [n])] };
    "from_slice", |a, b| vec![Tensor::from_slice(a.as_slice())];
    "from_scalar", |a, b| vec![Tensor::from_scalar(Tr::new(3))];
    "scalar", |a, b| vec![scalar(Tr::new(3)), Tensor::from(Tr::new(4))];
    "From<Option>", |a, b| vec![T::from(Some(Tr::new(3))), T::from(None)];
    "from_vec", |a, b| vec![Tensor::from_vec(vals(a), a.shape())];
    "from_vec spare", |a, b| { let mut v = Vec::with_capacity(a.size() + 9); v.extend(vals(a)); vec![Tensor::from_vec(v, a.shape())] };
    "from_box", |a, b| vec![Tensor::from_box(vals(a).into_boxed_slice(), a.shape())];
    "From<Vec>", |a, b| vec![T::from(vals(a))];
    "From<Vec> spare", |a, b| { let mut v = Vec::with_capacity(a.size() + 9); v.extend(vals(a)); vec![T::from(v)] };
    "From<Vec> empty", |a, b| vec![T::from(Vec::<Tr>::new()), T::from(Vec::<Tr>::with_capacity(4))];
    "From<&Vec>", |a, b| { let v = vals(a); vec![T::from(&v)] };
    "From<Vec<[;2]>>", |a, b| vec![T::from((0..a.size() as i64).map(|k| arr::<2>(k)).collect::<Vec<[Tr; 2]>>())];
    "From<Vec<[;3]>> spare", |a, b| { let mut v: Vec<[Tr; 3]> = Vec::with_capacity(11); v.extend((0..a.size().min(5) as i64).map(|k| arr::<3>(k))); vec![T::from(v)] };
    "From<Vec<[;1]>>", |a, b| vec![T::from((0..a.size() as i64).map(|k| arr::<1>(k)).collect::<Vec<[Tr; 1]>>())];
    "From<Vec<[;2]>> empty", |a, b| vec![T::from(Vec::<[Tr; 2]>::new())];
    "From<Vec<[;0]>>", |a, b| vec![T::from(vec![arr::<0>(1), arr::<0>(2)])];
    "From<&Vec<[;2]>>", |a, b| { let v: Vec<[Tr; 2]> = (0..a.size() as i64).map(|k| arr::<2>(k)).collect(); vec![T::from(&v)] };
    "From<&Vec<Vec>>", |a, b| { let v = nest2(a); vec![T::from(&v)] };
    "From<&Vec<Vec<[;2]>>>", |a, b| { let v: Vec<Vec<[Tr; 2]>> = vec![vec![arr(0), arr(2)], vec![arr(4), arr(6)]]; vec![T::from(&v)] };
    "From<&Vec^3>", |a, b| { let v = vec![nest2(a), nest2(a)]; vec![T::from(&v)] };
    "From<&Vec^4>", |a, b| { let v = vec![vec![nest2(a)], vec![nest2(a)]]; vec![T::from(&v)] };
    "From<&Vec^5>", |a, b| { let v = vec![vec![vec![nest2(a)], vec![nest2(a)]]]; vec![T::from(&v)] };
    "From<&[T]>", |a, b| vec![T::from(a.as_slice())];
    "From<[T;3]>", |a, b| vec![T::from(arr::<3>(5))];
    "From<[T;0]>", |a, b| vec![T::from(arr::<0>(5))];
    "From<&[[;2]]>", |a, b| { let v = [arr::<2>(0), arr::<2>(2), arr::<2>(4)]; vec![T::from(&v[..])] };
    "From<[[;2];3]>", |a, b| vec![T::from([arr::<2>(0), arr::<2>(2), arr::<2>(4)])];
    "From<[[[;2];2];1]>", |a, b| vec![T::from([[arr::<2>(0), arr::<2>(2)]])];
    "From<[[[[;2];1];2];1]>", |a, b| vec![T::from([[[arr::<2>(0)], [arr::<2>(2)]]])];
    "collect owned", |a, b| vec![a.iter().map(|v| cb(v.get())).collect::<T>()];
    "collect refs", |a, b| vec![a.iter().collect::<T>()];
    "collect filter", |a, b| vec![vals(a).into_iter().filter(|v| v.get() % 2 == 0).collect::<T>()];
    "join_vec", |a, b| { let v = nest2(a); vec![Tensor::join_vec(&v)] };
    "fill", |a, b| vec![Tensor::fill(a.shape(), Tr::new(9))];
    "init::fill", |a, b| vec![init::fill(a.shape(), Tr::new(9))];
    "zeros ones", |a, b| vec![Tensor::<Tr>::zeros(a.shape()), Tensor::<Tr>::ones(a.shape())];
    "eye tri", |a, b| vec![Tensor::<Tr>::eye(3), Tensor::<Tr>::tri(2), Tensor::<Tr>::identity(1)];
    "tril", |a, b| vec![a.tril()];
    "triu", |a, b| vec![a.triu()];
    "diagflat", |a, b| vec![a.clone().flatten().diagflat()];
    "meshgrid", |a, b| { let [x, y] = a.clone().flatten().meshgrid(&b.clone().flatten()); vec![x, y] };
    "meshgrid_ij 3", |a, b| { let f = a.clone().flatten().subslice(0, 1); let g = b.clone().flatten(); let [x, y, z] = init::meshgrid_ij([&f, &g, &g]); vec![x, y, z] };
    "meshgrid part", |a, b| { let [_, y] = a.clone().flatten().meshgrid(&b.clone().flatten()); vec![y] };
    "concatenate", |a, b| vec![array::concatenate([a, b])];
    "concatenate owned", |a, b| vec![array::concatenate(vec![a.clone(), b.clone(), a.clone()])];
    "concatenate tuple", |a, b| vec![array::concatenate((a, b))];
    "concatenate vecs", |a, b| vec![array::concatenate(vec![vals(a), vals(b)])];
    "concatenate &vecs", |a, b| { let (x, y) = (vals(a), vals(b)); vec![array::concatenate([&x, &y])] };
    "concatenate one", |a, b| vec![array::concatenate([a])];
    "concatenate_axis", |a, b| vec![array::concatenate_axis(-1, [a, b])];
    "a.concatenate", |a, b| vec![a.concatenate([b, a])];
    "a.concatenate_axis", |a, b| vec![a.concatenate_axis(1, [b])];
    "stack", |a, b| vec![array::stack([a, b])];
    "stack_axis", |a, b| vec![array::stack_axis(-1, [a, b])];
    "a.stack", |a, b| vec![a.stack([b], 1)];
    "hstack", |a, b| vec![array::hstack([a, b])];
    "vstack", |a, b| vec![array::vstack([a, b]), a.vstack([b])];
    "dstack", |a, b| vec![array::dstack([a, b]), a.dstack([b])];
    "unstack 0", |a, b| a.unstack(0);
    "unstack -1", |a, b| a.unstack(-1);
    "split", |a, b| a.split(1usize);
    "split 0", |a, b| a.split_axis(0, [1]);
    "split -1", |a, b| a.split_axis(-1, [1]);
    "vsplit", |a, b| a.vsplit(a.dim(0));
    "hsplit", |a, b| a.hsplit(a.dim(1));
    "dsplit", |a, b| a.dsplit(vec![1]);
    "tile", |a, b| vec![a.tile([2, 1]), a.tile([2])];
    "tile 0", |a, b| vec![array::tile(a, [1, 2, 1])];
    "transpose", |a, b| vec![a.transpose(), a.t()];
    "array::transpose owned", |a, b| vec![array::transpose(a.map(|v| v.clone()))];
    "&a + &b", |a, b| vec![a + b];
    "a - b", |a, b| vec![a.clone() - b.clone()];
    "&a * b", |a, b| vec![a * b.clone()];
    "a * &b", |a, b| vec![a.clone() * b];
    "&a + x", |a, b| vec![a + Tr::new(4)];
    "a - x", |a, b| vec![a.clone() - Tr::new(4)];
    "-a", |a, b| vec![-a.clone(), -a];
    "square", |a, b| vec![a.square()];
    "eq", |a, b| { let e = a == b; let f = a.partial_cmp(b); vec![scalar(Tr::new(e as i64)), scalar(Tr::new(f.map(|o| o as i64).unwrap_or(5)))] };
    "debug", |a, b| { let s = format!("{a:?}"); vec![scalar(Tr::new(s.len() as i64))] };
    "reads", |a, b| {
        let n: i64 = (0..a.size() + 2).filter_map(|i| a.get(i)).map(|v| v.get()).sum();
        let m: i64 = a.iter_row().map(|r| r[0].get()).sum();
        let k: i64 = if a.size() > 0 { a.as_wrap_slice(a.size() + 1)[0].get() } else { 0 };
        vec![scalar(Tr::new(n + m + k))]
    };
}

/// Shape and values of a result, for comparisons.
pub fn shot(t: &T) -> (Vec<usize>, Vec<i64>) {
    (t.shape().as_vec(), t.iter().map(|v| v.get()).collect())
}

/// Operations that call a function given by the user, which calls `f`.
pub type Host = fn(&T, &mut dyn FnMut()) -> Vec<T>;

pub const HOSTS: &[(&str, Host)] = &[
    ("map", |a, f| vec![a.map(|v| { f(); Tr::new(v.get() + 1) })]),
    ("map_row", |a, f| vec![a.map_row::<2, Tr>(|r| { f(); [Tr::new(r[0].get()), Tr::new(r.len() as i64)] })]),
    ("map_expand", |a, f| vec![a.map_expand::<2, Tr>(|v| { f(); [Tr::new(v.get()), Tr::new(1)] })]),
    ("map2", |a, f| vec![a.map2(a, |v, w| { f(); Tr::new(v.get() + w.get()) })]),
    ("map2 row", |a, f| vec![a.map2(&a.slice(0), |v, w| { f(); Tr::new(v.get() * 3 + w.get()) })]),
    ("map2 scalar", |a, f| vec![a.map2(&scalar(Tr::new(3)), |v, w| { f(); Tr::new(v.get() * 3 + w.get()) })]),
    ("map3", |a, f| vec![a.map3(a, a, |v, w, x| { f(); Tr::new(v.get() + w.get() * x.get()) })]),
    ("init", |a, f| { let mut k = 0; vec![Tensor::init(a.shape(), || { f(); k += 1; Tr::new(k) })] }),
    ("init_rindexed", |a, f| vec![Tensor::init_rindexed(a.shape(), |i| { let v: Vec<usize> = i.to_vec(); f(); assert_eq!(v, i.to_vec()); Tr::new(v.iter().fold(0, |s, x| s * 10 + *x as i64)) })]),
    ("fold", |a, f| vec![a.fold(Tr::new(1), |s, v| { f(); Tr::new(s.get() * 3 + v.get()) })]),
    ("fold_axis 0", |a, f| vec![a.fold_axis(0, Tr::new(1), |s, v| { f(); Tr::new(s.get() * 3 + v.get()) })]),
    ("fold_axis -1", |a, f| vec![a.fold_axis(-1, Tr::new(1), |s, v| { f(); Tr::new(s.get() * 3 + v.get()) })]),
    ("fold_row", |a, f| vec![a.fold_row(0, [Tr::new(1)], |s, r| { f(); [Tr::new(s[0].get() * 3 + r[0].get())] })]),
    ("fold_row none", |a, f| vec![a.fold_row(None, [Tr::new(1)], |s, r| { f(); [Tr::new(s[0].get() * 3 + r[0].get())] })]),
    ("normalize gather", |a, f| vec![a.normalize(0, Tr::new(1), |s, v| { f(); Tr::new(s.get() + v.get()) }, |s| s, |s, v| Tr::new(v.get() - s.get()))]),
    ("normalize finish", |a, f| { let f = std::cell::RefCell::new(f); vec![a.normalize(-1, Tr::new(1), |s, v| Tr::new(s.get() + v.get()), |s| { (f.borrow_mut())(); s }, |s, v| Tr::new(v.get() - s.get()))] }),
    ("normalize apply", |a, f| { let f = std::cell::RefCell::new(f); vec![a.normalize(None, Tr::new(1), |s, v| Tr::new(s.get() + v.get()), |s| s, |s, v| { (f.borrow_mut())(); Tr::new(v.get() - s.get()) })] }),
    ("reduce", |a, f| vec![a.reduce(|x, y| { f(); Tr::new(x.get() * 3 + y.get()) })]),
    ("reduce_axis", |a, f| vec![a.reduce_axis(0, |x, y| { f(); Tr::new(x.get() * 3 + y.get()) })]),
    ("collect", |a, f| vec![a.iter().map(|v| { f(); Tr::new(v.get()) }).collect::<T>()]),
];
