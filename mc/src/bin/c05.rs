//! C05: the size is the product of the dimensions; mismatches are refused.
use essay_tensor::array;
use essay_tensor::init;
use essay_tensor::tensor::{Tensor, Type};
use mc::fops::{Args, FOPS};
use mc::gens::{gens, Owned, Unit};
use mc::ops::OPS;
use mc::track::Tr;
use mc::*;

/// All reported sizes agree with each other and with what can be read.
fn consistent<T: Type>(t: &Tensor<T>) -> R {
    let d = t.shape().as_vec();
    let n: u128 = d.iter().map(|x| *x as u128).product();
    let e = |s: String| Err(format!("tensor of dimensions {d:?}: {s}"));
    if t.size() as u128 != n { return e(format!("size {}", t.size())); }
    if t.shape().size() as u128 != n { return e(format!("shape size {}", t.shape().size())); }
    if t.as_slice().len() as u128 != n { return e(format!("slice of {} elements", t.as_slice().len())); }
    if t.iter().count() as u128 != n { return e(format!("{} elements iterated", t.iter().count())); }
    if (&**t).len() as u128 != n { return e("dereferenced length differs".into()); }
    let n = n as usize;
    if n > 0 && (t.get(n - 1).is_none() || t.get(n).is_some()) { return e("get does not end at the size".into()); }
    if n == 0 && t.get(0).is_some() { return e("an element of an empty tensor".into()); }
    let r = d.len();
    if t.rank() != r || t.shape().rank() != r { return e(format!("rank {}", t.rank())); }
    for i in 0..r {
        if t.dim(i) != d[i] || t.shape().dim(i) != d[i] { return e(format!("axis {i} reported as {}", t.dim(i))); }
        if t.rdim(i) != d[r - 1 - i] || t.shape().rdim(i) != d[r - 1 - i] { return e(format!("axis {i} from the end reported as {}", t.rdim(i))); }
    }
    if r >= 1 {
        if t.len() != d[0] { return e(format!("length {}", t.len())); }
        if t.cols() != d[r - 1] || t.shape().cols() != d[r - 1] { return e(format!("{} columns", t.cols())); }
    }
    if r >= 2 && (t.rows() != d[r - 2] || t.shape().rows() != d[r - 2]) { return e(format!("{} rows", t.rows())); }
    for b in 0..=r {
        let outer: usize = d[..r - b].iter().product();
        if t.shape().batch_len(b) != outer { return e(format!("{} batches of rank {b}", t.shape().batch_len(b))); }
    }
    if r >= 2 && d[r - 1] > 0 {
        let rows = t.iter_row().count();
        if rows * d[r - 1] != n { return e(format!("{rows} rows iterated")); }
        if t.iter_row().any(|x| x.len() != d[r - 1]) { return e("a row of another length".into()); }
    }
    Ok(())
}

fn all<T: Type>(v: &[Tensor<T>]) -> R {
    v.iter().try_for_each(|t| consistent(t))
}

/// Either the given dimensions, consistently, or a refusal; which one follows
/// from `fits`.
fn decide<T: Type>(what: &str, fits: bool, dims: &[usize], f: impl FnOnce() -> Tensor<T>) -> R {
    match (catch(f), fits) {
        (Ok(t), true) => {
            if t.shape().as_vec() != dims { return Err(format!("{what}: dimensions {:?} instead of {dims:?}", t.shape().as_vec())); }
            consistent(&t).map_err(|e| format!("{what}: {e}"))
        }
        (Ok(t), false) => Err(format!("{what}: {dims:?} was accepted; the tensor has dimensions {:?} and {} elements", t.shape().as_vec(), t.size())),
        (Err(e), true) => Err(format!("{what}: {dims:?} was refused: {e}")),
        (Err(_), false) => Ok(()),
    }
}

fn seq(n: usize) -> Vec<i32> {
    (0..n as i32).collect()
}

fn mismatch(c: &mut Ctx, n: usize, d: &[usize]) -> R {
    let fits = d.iter().map(|x| *x as u128).product::<u128>() == n as u128;
    c.state(&(n, d));
    c.outcome(&fits);
    c.ticks(12);
    let sh = || shape(d);
    decide("from_vec", fits, d, || Tensor::from_vec(seq(n), sh()))?;
    decide("from_vec spare", fits, d, || { let mut v = Vec::with_capacity(n + 9); v.extend(seq(n)); Tensor::from_vec(v, sh()) })?;
    decide("from_box", fits, d, || Tensor::from_box(seq(n).into_boxed_slice(), sh()))?;
    decide("from_vec zero-sized", fits, d, || Tensor::from_vec(vec![Unit; n], sh()))?;
    decide("from_vec owning", fits, d, || Tensor::from_vec((0..n).map(Owned::nth).collect(), sh()))?;
    decide("reshape", fits, d, || Tensor::from(seq(n)).reshape(sh()))?;
    decide("reshape of a clone", fits, d, || { let t = Tensor::from(seq(n)); let u = t.clone().reshape(sh()); assert_eq!(t.shape().as_vec(), [n]); u })?;
    decide("reshape of a view", fits, d, || Tensor::from(seq(n + 5)).subslice_flat(2, n, [n]).reshape(sh()))?;
    decide("reshape of a matrix", fits, d, || Tensor::from_vec(seq(n), [n, 1]).reshape(sh()))?;
    decide("from_merge of one", fits, d, || Tensor::from_merge(&[Tensor::from(seq(n))], sh()))?;
    decide("from_merge of two", fits, d, || Tensor::from_merge(&[Tensor::from(seq(n / 2)), Tensor::from(seq(n - n / 2))], sh()))?;
    decide("from_merge of none", fits && n == 0 || d.iter().any(|x| *x == 0), d, || Tensor::<i32>::from_merge(&[], sh()))?;
    decide("from_merge of views", fits, d, || { let t = Tensor::from(seq(n + 4)); Tensor::from_merge(&[t.subslice_flat(1, n / 3, [n / 3]), t.subslice_flat(2, n - n / 3, [n - n / 3])], sh()) })?;
    for (parent, off) in [(n, 0), (n + 3, 0), (n + 3, 3), (n + 4, 1)] {
        decide("subslice_flat", fits, d, || Tensor::from(seq(parent)).subslice_flat(off, n, sh()))?;
        c.tick();
    }
    // one element beyond the parent
    decide("subslice_flat beyond", false, d, || Tensor::from(seq(n + 2)).subslice_flat(3, n, sh()))?;
    decide("subslice_flat of a view beyond", false, d, || Tensor::from(seq(n + 9)).subslice_flat(2, n + 1, [n + 1]).subslice_flat(2, n, sh()))
}

/// All vectors of `k` lengths 0..=hi.
fn lens(k: usize, hi: usize) -> Vec<Vec<usize>> {
    shapes::lists(k, &(0..=hi).collect::<Vec<_>>())
}

fn even<X: PartialEq>(v: &[X]) -> bool {
    v.windows(2).all(|w| w[0] == w[1])
}

fn nested(c: &mut Ctx, what: &str, even: bool, f: impl FnOnce() -> Tensor<i32>) -> R {
    c.tick();
    c.outcome(&even);
    match (catch(f), even) {
        (Ok(t), false) => Err(format!("{what}: ragged nesting gave a tensor of dimensions {:?}", t.shape().as_vec())),
        (Ok(t), true) => consistent(&t),
        (Err(e), true) => Err(format!("{what}: regular nesting was refused: {e}")),
        (Err(_), false) => Ok(()),
    }
}

/// Nested vectors from the number of children of each node, level by level.
struct Nest { counts: Vec<Vec<usize>> }

impl Nest {
    /// Regular nesting `d`, with node `i` of level `l` having `n` children
    /// for each `(l, i, n)`.
    fn new(d: &[usize], change: &[(usize, usize, usize)]) -> Nest {
        let mut counts: Vec<Vec<usize>> = Vec::new();
        let mut nodes = 1;
        for (l, n) in d.iter().enumerate() {
            let mut v = vec![*n; nodes];
            for (cl, i, k) in change {
                if *cl == l && *i < nodes { v[*i] = *k; }
            }
            nodes = v.iter().sum();
            counts.push(v);
        }
        Nest { counts }
    }
    fn regular(&self) -> bool {
        self.counts.iter().all(|v| even(v))
    }
    fn leaves(&self) -> Vec<Vec<i32>> {
        let mut k = 0;
        self.counts.last().unwrap().iter().map(|n| (0..*n).map(|_| { k += 1; k }).collect()).collect()
    }
    fn up<X>(&self, l: usize, v: Vec<X>) -> Vec<Vec<X>> {
        let mut it = v.into_iter();
        self.counts[l].iter().map(|n| it.by_ref().take(*n).collect()).collect()
    }
}

fn deep(c: &mut Ctx, d: &[usize], change: &[(usize, usize, usize)]) -> R {
    let n = Nest::new(d, change);
    let reg = n.regular();
    c.state(&n.counts);
    let v = n.leaves();
    match d.len() {
        2 => { let v = n.up(0, v).remove(0); nested(c, "&Vec^2", reg, || Tensor::from(&v)) }
        3 => { let v = n.up(0, n.up(1, v)).remove(0); nested(c, "&Vec^3", reg, || Tensor::from(&v)) }
        4 => { let v = n.up(0, n.up(1, n.up(2, v))).remove(0); nested(c, "&Vec^4", reg, || Tensor::from(&v)) }
        _ => { let v = n.up(0, n.up(1, n.up(2, n.up(3, v)))).remove(0); nested(c, "&Vec^5", reg, || Tensor::from(&v)) }
    }
}

fn main() {
    run("C05", |c| {
        // every length against every shape
        for n in 0..=c.pick(16usize, 40) {
            let mut ds: Vec<Vec<usize>> = Vec::new();
            for r in 0..=3 { ds.extend(shapes::lists(r, &(0..=c.pick(5, 8)).collect::<Vec<_>>())); }
            ds.extend(shapes::lists(4, &c.pick(vec![0, 1, 2, 3], vec![0, 1, 2, 3, 4])));
            ds.extend(shapes::lists(5, &[1, 2]));
            ds.extend(shapes::lists(6, &[1, 2]));
            for k in n.saturating_sub(2)..=n + 2 { ds.extend([vec![k], vec![1, k], vec![k, 1], vec![1, k, 1]]); }
            for d in ds {
                c.case("length against shape", || format!("{n} elements as {d:?}"), |c| mismatch(c, n, &d));
            }
        }
        for n in [63usize, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024] {
            for d in [vec![n], vec![n - 1], vec![n + 1], vec![2, n / 2], vec![n / 2, 2], vec![n / 4, 4], vec![4, 4, n / 16], vec![8, n / 8], vec![n / 8 + 1, 8], vec![10, n / 10], vec![n, 2], vec![0, n], vec![n, 0]] {
                c.case("length against shape", || format!("{n} elements as {d:?}"), |c| mismatch(c, n, &d));
            }
        }

        // dimensions and totals that cannot be represented
        let big = [1usize << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 33, 1 << 48, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, usize::MAX - 1, usize::MAX];
        let small = [1usize, 2, 3, 4, 1 << 16, 1 << 20, 1 << 30];
        let mut ds: Vec<Vec<usize>> = Vec::new();
        for b in big {
            ds.push(vec![b]);
            for s in small.iter().chain(&big) {
                ds.push(vec![b, *s]);
                ds.push(vec![*s, b]);
                for q in [1, 2, 4, 1 << 31, 1 << 32, 1 << 33, usize::MAX] { ds.push(vec![*s, b, q]); ds.push(vec![b, q, *s]); }
            }
        }
        for r in 2..=6 {
            for e in 8..64 { ds.push(vec![1 << e; r]); }
        }
        ds.push(vec![65536, 65536, 65536, 65536]);
        ds.push(vec![3, 715827883]);
        ds.push(vec![641, 6700417]);
        ds.push(vec![274177, 67280421310721]);
        ds.push(vec![5, 858993460]);
        ds.sort();
        ds.dedup();
        for d in ds {
            for n in [0usize, 1, 2, 3, 4, 5, 8] {
                let exact = d.iter().try_fold(1usize, |a, b| a.checked_mul(*b));
                if exact == Some(n) { continue; }
                c.case("unrepresentable", || format!("{n} elements as {d:?}"), |c| {
                    c.state(&(n, &d));
                    c.ticks(5);
                    decide("from_vec", false, &d, || Tensor::from_vec(seq(n), shape(&d)))?;
                    decide("from_vec zero-sized", false, &d, || Tensor::from_vec(vec![Unit; n], shape(&d)))?;
                    decide("reshape", false, &d, || Tensor::from(seq(n)).reshape(shape(&d)))?;
                    decide("from_merge", false, &d, || Tensor::from_merge(&[Tensor::from(seq(n))], shape(&d)))?;
                    decide("subslice_flat", false, &d, || Tensor::from(seq(n)).subslice_flat(0, n, shape(&d)))
                });
            }
            // generated tensors whose total or byte count overflows
            let total: u128 = d.iter().fold(1u128, |a, x| a.saturating_mul(*x as u128));
            if total >= 1 << 62 && !d.contains(&0) {
                c.case("unrepresentable generated", || format!("{d:?}"), |c| {
                    c.state(&(&d, 1));
                    c.ticks(5);
                    decide("zeros", false, &d, || init::zeros::<i32>(shape(&d)))?;
                    decide("fill", false, &d, || init::fill(shape(&d), 3i64))?;
                    decide("init", false, &d, || Tensor::init(shape(&d), || 3i32))?;
                    decide("init_rindexed", false, &d, || Tensor::init_rindexed(shape(&d), |i| i.len() as i32))?;
                    if total >= 1 << 64 {
                        // the number of elements itself overflows: also for zero-sized ones
                        decide("init zero-sized", false, &d, || Tensor::init(shape(&d), || panic!("called")).map(|_: &Unit| 1i32))?;
                    }
                    Ok(())
                });
            }
        }

        // ranks beyond the maximum
        for r in 7..=9 {
            for k in [1usize, 2] {
                c.case("rank", || format!("rank {r} dims {k}"), |c| {
                    let d = vec![k; r];
                    c.ticks(3);
                    c.state(&d);
                    refused("from_vec", || Tensor::from_vec(seq(k.pow(r as u32)), d.clone()))?;
                    refused("reshape", || Tensor::from(seq(k.pow(r as u32))).reshape(&d[..]))?;
                    refused("zeros", || init::zeros::<f32>(d.clone()))
                });
            }
        }
        for k in [1usize, 2] {
            c.case("rank", || format!("growing rank 6, dims {k}"), |c| {
                let t = Tensor::from_vec(seq(k.pow(6)), vec![k; 6]);
                c.ticks(6);
                refused("expand_dims", || t.clone().expand_dims(0))?;
                refused("expand_dims -1", || t.clone().expand_dims(-1))?;
                refused("stack", || array::stack([&t, &t]))?;
                refused("stack_axis", || array::stack_axis(-1, [&t, &t]))?;
                refused("map_expand", || t.map_expand::<2, i32>(|v| [*v, *v]))?;
                refused("tensors", || Tensor::from([t.clone(), t.clone()]))?;
                refused("linspace", || { let f = t.map(|v| *v as f32); init::linspace(&f, &f, 2) })?;
                Ok(())
            });
        }

        // ragged nesting
        let hi = 3;
        for k in 0..=c.pick(4, 5) {
            for ls in lens(k, hi) {
                c.case("ragged 2", || format!("rows of {ls:?}"), |c| {
                    c.state(&ls);
                    let v: Vec<Vec<i32>> = ls.iter().map(|n| seq(*n)).collect();
                    nested(c, "&Vec<Vec>", even(&ls), || Tensor::from(&v))?;
                    let w: Vec<Vec<[i32; 2]>> = ls.iter().map(|n| (0..*n as i32).map(|i| [i, i]).collect()).collect();
                    nested(c, "&Vec<Vec<[;2]>>", even(&ls), || Tensor::from(&w))?;
                    let j = ok("join_vec", || Tensor::join_vec(&v))?;
                    consistent(&j)?;
                    if j.size() != ls.iter().sum::<usize>() { return Err("join_vec: another number of elements".into()); }
                    let t: Vec<Tensor<i32>> = v.iter().map(|v| Tensor::from(v)).collect();
                    if k > 0 {
                        nested(c, "&Vec<Tensor>", even(&ls), || Tensor::from(&t))?;
                        nested(c, "&[Tensor]", even(&ls), || Tensor::from(&t[..]))?;
                        if !even(&ls) || ls[0] > 0 { nested(c, "stack", even(&ls), || array::stack(t.clone()))?; }
                    }
                    if k == 2 { nested(c, "[Tensor; 2]", even(&ls), || Tensor::from([t[0].clone(), t[1].clone()]))?; }
                    if k == 3 { nested(c, "[Tensor; 3]", even(&ls), || Tensor::from([t[0].clone(), t[1].clone(), t[2].clone()]))?; }
                    Ok(())
                });
            }
        }
        // depth 3: an outer list of up to three lists of row lengths
        let inner: Vec<Vec<usize>> = (1..=2).flat_map(|k| lens(k, 2)).collect();
        let mut outer: Vec<Vec<Vec<usize>>> = inner.iter().map(|x| vec![x.clone()]).collect();
        for x in &inner { for y in &inner { outer.push(vec![x.clone(), y.clone()]); } }
        for x in &inner { for y in &inner { for z in &inner { if !c.quick() || x.len() == 2 { outer.push(vec![x.clone(), y.clone(), z.clone()]); } } } }
        for o in &outer {
            c.case("ragged 3", || format!("{o:?}"), |c| {
                c.state(o);
                let v: Vec<Vec<Vec<i32>>> = o.iter().map(|p| p.iter().map(|n| seq(*n)).collect()).collect();
                let flat: Vec<usize> = o.iter().flatten().copied().collect();
                let counts: Vec<usize> = o.iter().map(|p| p.len()).collect();
                let reg = even(&counts) && even(&flat);
                nested(c, "&Vec^3", reg, || Tensor::from(&v))?;
                // one more level around it, and next to a regular sibling
                let w = vec![v.clone()];
                nested(c, "&Vec^4", reg, || Tensor::from(&w))?;
                let sib: Vec<Vec<Vec<i32>>> = vec![vec![seq(2); 2]; 2];
                let w2 = vec![sib.clone(), v.clone()];
                let reg2 = reg && counts == [2, 2] && flat.iter().all(|n| *n == 2);
                nested(c, "&Vec^4 with a sibling", reg2, || Tensor::from(&w2))?;
                let w2 = vec![v.clone(), sib.clone()];
                nested(c, "&Vec^4 before a sibling", reg2, || Tensor::from(&w2))?;
                let x = vec![w.clone(), w.clone()];
                nested(c, "&Vec^5", reg, || Tensor::from(&x))?;
                let x = vec![vec![sib.clone()], w];
                nested(c, "&Vec^5 with a sibling", reg2, || Tensor::from(&x))?;
                let x = vec![vec![sib.clone(), v.clone()], vec![sib.clone(), sib]];
                nested(c, "&Vec^5 inner sibling", reg2, || Tensor::from(&x))
            });
        }
        // every regular nesting with one node of one level changed, and with
        // two nodes of a level changed so that the total stays the same
        for r in 2..=5usize {
            for d in shapes::lists(r, if r <= 4 { &[1, 2, 3] } else { &[1, 2] }).into_iter().chain([vec![9; 2], vec![17, 3], vec![3, 17], vec![40, 40], vec![5, 4, 9], vec![9, 4, 5], vec![3, 3, 3, 3, 3]].into_iter().filter(|d| d.len() == r)) {
                c.case("ragged deep", || format!("{d:?}"), |c| deep(c, &d, &[]));
                for l in 1..r {
                    let nodes: usize = d[..l].iter().product();
                    for i in 0..nodes {
                        for n in [0, d[l] - 1, d[l] + 1, 2 * d[l]] {
                            c.case("ragged deep", || format!("{d:?} level {l} node {i} has {n}"), |c| deep(c, &d, &[(l, i, n)]));
                        }
                        for j in (0..nodes).filter(|j| *j != i && (nodes <= 12 || j % 7 == 0 || *j + 1 == nodes)) {
                            c.case("ragged deep", || format!("{d:?} level {l} node {i} longer, {j} shorter"), |c| deep(c, &d, &[(l, i, d[l] + 1), (l, j, d[l] - 1)]));
                        }
                    }
                }
            }
        }
        // lists of tensors of different shapes, also with equal element counts
        let ts: Vec<Vec<usize>> = vec![vec![], vec![1], vec![2], vec![4], vec![1, 2], vec![2, 1], vec![2, 2], vec![1, 4], vec![4, 1], vec![2, 3], vec![3, 2], vec![6], vec![1, 2, 2], vec![2, 2, 1]];
        for x in &ts {
            for y in &ts {
                for z in &ts {
                    c.case("lists of tensors", || format!("{x:?} {y:?} {z:?}"), |c| {
                        c.state(&(x, y, z));
                        let t: Vec<Tensor<i32>> = [x, y, z].iter().map(|d| Tensor::from_vec(seq(shapes::size(d)), shape(d))).collect();
                        let reg = x == y && y == z;
                        nested(c, "&Vec<Tensor>", reg, || Tensor::from(&t))?;
                        nested(c, "[Tensor; 3]", reg, || Tensor::from([t[0].clone(), t[1].clone(), t[2].clone()]))?;
                        nested(c, "&[Tensor]", reg, || Tensor::from(&t[..]))
                    });
                }
            }
        }

        // everything an operation hands out
        let shapes: &[&[usize]] = &[&[], &[0], &[1], &[2], &[3], &[5], &[1, 1], &[2, 2], &[2, 3], &[3, 1], &[0, 2], &[2, 0], &[2, 2, 2], &[1, 3, 2], &[2, 1, 2, 2], &[1, 2, 1, 2, 1], &[1, 2, 1, 2, 1, 2]];
        for (name, f) in OPS {
            for da in shapes {
                for db in shapes {
                    c.case("results", || format!("{name} {da:?} {db:?}"), |c| {
                        for p in [Prov::Own, Prov::Mid] {
                            let (a, b) = (build(&M::<Tr>::seq(da, 1), p), build(&M::<Tr>::seq(db, 50), Prov::Tail));
                            c.tick();
                            if let Ok(v) = catch(|| f(&a, &b)) { all(&v)?; c.state(&(name, da, db)); }
                            consistent(&a)?;
                        }
                        track::reset();
                        Ok(())
                    });
                }
            }
        }
        for (name, g) in gens::<Owned>() {
            for da in shapes {
                c.case("results", || format!("owning {name} {da:?}"), |c| {
                    let a = build(&M::<Owned>::seq(da, 1), Prov::Mid);
                    c.tick();
                    if let Ok(v) = catch(|| g(&a)) { all(&v)?; c.state(&(name, da)); }
                    Ok(())
                });
            }
        }
        for (name, g) in gens::<Unit>() {
            for da in shapes {
                c.case("results", || format!("zero-sized {name} {da:?}"), |c| {
                    let a = build(&M::<Unit>::seq(da, 1), Prov::Mid);
                    c.tick();
                    if let Ok(v) = catch(|| g(&a)) { all(&v)?; c.state(&(name, da, 0)); }
                    Ok(())
                });
            }
        }
        for (name, uses, f) in FOPS {
            for da in shapes {
                for db in shapes {
                    if !uses.contains('b') && da != db { continue; }
                    c.case("numeric results", || format!("{name} {da:?} {db:?}"), |c| {
                        let xs: &[isize] = if uses.contains('x') { &[-3, -2, -1, 0, 1, 2, 3] } else { &[0] };
                        let ns: &[usize] = if uses.contains('n') { &[0, 1, 2, 3, 4, 6] } else { &[1] };
                        let ms: &[usize] = if uses.contains('m') { &[0, 1, 2, 3, 5] } else { &[1] };
                        let (a, b) = (build(&M::<f32>::seq(da, 1), Prov::Mid), build(&M::<f32>::seq(db, 2), Prov::Own));
                        for &x in xs { for &n in ns { for &m in ms {
                            c.tick();
                            if let Ok(v) = catch(|| f(&Args { a: &a, b: &b, x, n, m })) {
                                all(&v).map_err(|e| format!("axis {x}, counts {n} {m}: {e}"))?;
                                c.state(&(name, da, db, x, n, m));
                            }
                        } } }
                        consistent(&a)
                    });
                }
            }
        }
    });
}
