//! C11: generated tensors.
use essay_tensor::init;
use essay_tensor::tensor::{Shape, Tensor, Type};
use mc::track::Tr;
use mc::*;
use num_traits::{One, Zero};

fn consts<T: Elem + Zero + One + Default>(c: &mut Ctx, d: &[usize]) -> R {
    let n = size(d);
    c.ticks(9);
    c.state(&(d, std::any::type_name::<T>()));
    let k = |v: T| M::new(d, vec![v; n]);
    ctx_err("zeros", same(&ok("zeros", || Tensor::<T>::zeros(shape(d)))?, &k(T::zero())))?;
    ctx_err("ones", same(&ok("ones", || Tensor::<T>::ones(shape(d)))?, &k(T::one())))?;
    ctx_err("init::zeros", same(&ok("zeros", || init::zeros::<T>(shape(d)))?, &k(T::zero())))?;
    ctx_err("init::ones", same(&ok("ones", || init::ones::<T>(shape(d)))?, &k(T::one())))?;
    ctx_err("fill", same(&ok("fill", || Tensor::fill(shape(d), T::nth(7)))?, &k(T::nth(7))))?;
    ctx_err("init::fill", same(&ok("fill", || init::fill(shape(d), T::nth(9)))?, &k(T::nth(9))))?;
    ctx_err("init_default", same(&ok("default", || Tensor::<T>::init_default(shape(d)))?, &k(T::default())))
}

fn inits(c: &mut Ctx, d: &[usize]) -> R {
    let n = size(d);
    c.ticks(2);
    c.state(&d);
    let mut k = 0u64;
    let t = ok("init", || Tensor::init(shape(d), || { k += 1; k }))?;
    if k != n as u64 {
        return Err(format!("init called {k} times for {n}"));
    }
    ctx_err("init", same(&t, &M::new(d, (1..=n as u64).collect())))?;
    let mut log = Vec::new();
    let t = ok("init_rindexed", || Tensor::init_rindexed(shape(d), |i| { log.push(i.to_vec()); log.len() as u64 }))?;
    let want: Vec<Vec<usize>> = indices(d).into_iter().map(|mut i| { i.reverse(); i }).collect();
    if log != want {
        return Err(format!("init_rindexed was called with {:?}...", &log[..log.len().min(8)]));
    }
    ctx_err("init_rindexed", same(&t, &M::new(d, (1..=n as u64).collect())))?;
    let t = ok("init_rindexed", || Tensor::init_rindexed(shape(d), |i| i.iter().rev().fold(0u64, |s, v| s * 1000 + *v as u64)))?;
    let want: Vec<u64> = indices(d).iter().map(|i| i.iter().fold(0, |s, v| s * 1000 + *v as u64)).collect();
    ctx_err("index values", same(&t, &M::new(d, want)))
}

fn matrices<T: Elem + Zero + One>(c: &mut Ctx, n: usize) -> R {
    c.ticks(6);
    c.state(&("eye", n));
    let by = |f: &dyn Fn(usize, usize) -> bool| {
        let mut v = Vec::new();
        for i in 0..n {
            for j in 0..n {
                v.push(if f(i, j) { T::one() } else { T::zero() });
            }
        }
        M::new(&[n, n], v)
    };
    let id = by(&|i, j| i == j);
    ctx_err("eye", same(&ok("eye", || Tensor::<T>::eye(n))?, &id))?;
    ctx_err("identity", same(&ok("identity", || Tensor::<T>::identity(n))?, &id))?;
    ctx_err("init::eye", same(&ok("eye", || init::eye::<T>(n))?, &id))?;
    ctx_err("init::identity", same(&ok("identity", || init::identity::<T>(n))?, &id))?;
    let lower = by(&|i, j| j <= i);
    ctx_err("tri", same(&ok("tri", || Tensor::<T>::tri(n))?, &lower))?;
    ctx_err("init::tri", same(&ok("tri", || init::tri::<T>(n))?, &lower))
}

fn diag<T: Elem + Zero>(c: &mut Ctx, n: usize, p: Prov) -> R {
    c.tick();
    let m = M::<T>::seq(&[n], 1);
    let t = build(&m, p);
    let mut v = Vec::new();
    for i in 0..n {
        for j in 0..n {
            v.push(if i == j { m.data[i].clone() } else { T::zero() });
        }
    }
    same(&ok("diagflat", || t.diagflat())?, &M::new(&[n, n], v))?;
    if n > 0 {
        refused("diagflat of a matrix", || t.clone().reshape([n, 1]).diagflat())?;
    }
    Ok(())
}

fn tri<T: Elem + Zero>(c: &mut Ctx, d: &[usize], p: Prov) -> R {
    c.ticks(2);
    let m = M::<T>::seq(d, 1);
    let t = build(&m, p);
    if d.len() < 2 {
        refused("tril", || t.tril())?;
        return refused("triu", || t.triu());
    }
    let r = d.len();
    let pick = |lower: bool| {
        let mut v = Vec::new();
        for (k, idx) in indices(d).iter().enumerate() {
            let (i, j) = (idx[r - 2], idx[r - 1]);
            v.push(if (lower && j <= i) || (!lower && i <= j) { m.data[k].clone() } else { T::zero() });
        }
        M::new(d, v)
    };
    c.state(&(d, p as u8));
    ctx_err("tril", same(&ok("tril", || t.tril())?, &pick(true)))?;
    ctx_err("triu", same(&ok("triu", || t.triu())?, &pick(false)))?;
    same(&t, &m)
}

fn one_hot(c: &mut Ctx, idx: &[usize], depth: usize) -> R {
    c.ticks(2);
    if idx.iter().any(|i| *i >= depth) {
        refused("one_hot", || init::one_hot(idx, depth))?;
        return refused("Tensor::one_hot", || Tensor::one_hot(idx, depth));
    }
    let mut v = vec![0f32; depth];
    for i in idx {
        v[*i] = 1.;
    }
    let m = M::new(&[depth], v);
    ctx_err("one_hot", same(&ok("one_hot", || init::one_hot(idx, depth))?, &m))?;
    ctx_err("Tensor::one_hot", same(&ok("one_hot", || Tensor::one_hot(idx, depth))?, &m))
}

fn grid<T: Elem>(c: &mut Ctx, lens: &[usize], p: Prov) -> R {
    c.ticks(2);
    c.state(&lens);
    let ms: Vec<M<T>> = lens.iter().enumerate().map(|(k, n)| M::seq(&[*n], 1 + 20 * k)).collect();
    let ts: Vec<Tensor<T>> = ms.iter().map(|m| build(m, p)).collect();
    // IJ: axis k of the result is input k; XY: reversed
    let check = |got: &[Tensor<T>], ij: bool, what: &str| -> R {
        let dims: Vec<usize> = if ij { lens.to_vec() } else { lens.iter().rev().copied().collect() };
        if got.len() != lens.len() {
            return Err(format!("{what}: {} grids", got.len()));
        }
        for k in 0..lens.len() {
            let axis = if ij { k } else { lens.len() - 1 - k };
            let v: Vec<T> = indices(&dims).iter().map(|i| ms[k].data[i[axis]].clone()).collect();
            ctx_err(&format!("{what} input {k}"), same(&got[k], &M::new(&dims, v)))?;
        }
        Ok(())
    };
    match ts.as_slice() {
        [a] => {
            check(&ok("xy", || init::meshgrid([a]))?, false, "meshgrid")?;
            check(&ok("ij", || init::meshgrid_ij([a]))?, true, "meshgrid_ij")?;
            check(&ok("xy", || init::meshgrid([a.clone()]))?, false, "meshgrid")?;
            check(&ok("ij", || init::meshgrid_ij([a.clone()]))?, true, "meshgrid_ij")
        }
        [a, b] => {
            check(&ok("xy", || init::meshgrid([a, b]))?, false, "meshgrid")?;
            check(&ok("ij", || init::meshgrid_ij([a, b]))?, true, "meshgrid_ij")?;
            check(&ok("xy", || a.meshgrid(b))?, false, "a.meshgrid")?;
            check(&ok("ij", || a.meshgrid_ij(b))?, true, "a.meshgrid_ij")?;
            check(&ok("xy", || init::meshgrid([a.clone(), b.clone()]))?, false, "meshgrid")?;
            check(&ok("ij", || init::meshgrid_ij([a.clone(), b.clone()]))?, true, "meshgrid_ij")
        }
        [a, b, d] => {
            check(&ok("xy", || init::meshgrid([a, b, d]))?, false, "meshgrid")?;
            check(&ok("ij", || init::meshgrid_ij([a, b, d]))?, true, "meshgrid_ij")?;
            check(&ok("xy", || init::meshgrid([a.clone(), b.clone(), d.clone()]))?, false, "meshgrid")?;
            check(&ok("ij", || init::meshgrid_ij([a.clone(), b.clone(), d.clone()]))?, true, "meshgrid_ij")
        }
        _ => unreachable!(),
    }
}

fn mgrid<const A: usize, const B: usize>(c: &mut Ctx) -> R {
    c.tick();
    let [x, y] = ok("mgrid", || init::mgrid::<A, B>())?;
    // XY order: first input along the columns
    let d = [B, A];
    let (mut vx, mut vy) = (Vec::new(), Vec::new());
    for i in 0..B {
        for j in 0..A {
            vx.push(j as f64);
            vy.push(i as f64);
        }
    }
    ctx_err("x", same_by(&x, &d, &vx, |a, b| near(*a, *b, 1e-5)))?;
    ctx_err("y", same_by(&y, &d, &vy, |a, b| near(*a, *b, 1e-5)))
}

/// The initialiser runs once per element, and fill clones the given value.
fn tracked(c: &mut Ctx, d: &[usize]) -> R {
    c.ticks(2);
    track::reset();
    {
        let mut k = 0;
        let t = Tensor::init(shape(d), || { k += 1; Tr::new(k) });
        let got: Vec<i64> = t.iter().map(|v| v.get()).collect();
        if got != (1..=size(d) as i64).collect::<Vec<_>>() || track::live() != size(d) as i64 {
            return Err(format!("{got:?}, {} live", track::live()));
        }
        let f = Tensor::fill(shape(d), Tr::new(5));
        if f.iter().any(|v| v.get() != 5) || f.size() != size(d) {
            return Err("fill".into());
        }
    }
    if track::live() != 0 {
        return Err(format!("{} values alive", track::live()));
    }
    track::check()
}

fn sized<T: Type>(_: &Tensor<T>) {}

fn main() {
    run("C11", |c| {
        let small = small_shapes(c.tier, 0, 6);
        for d in &small {
            c.case("const f32", || format!("{d:?}"), |c| consts::<f32>(c, d));
            c.case("const i32", || format!("{d:?}"), |c| consts::<i32>(c, d));
            c.case("const u8", || format!("{d:?}"), |c| consts::<u8>(c, d));
            c.case("const f64", || format!("{d:?}"), |c| consts::<f64>(c, d));
            c.case("const i64", || format!("{d:?}"), |c| consts::<i64>(c, d));
            c.case("const u128", || format!("{d:?}"), |c| consts::<u128>(c, d));
            c.case("init", || format!("{d:?}"), |c| inits(c, d));
            c.case("tracked", || format!("{d:?}"), |c| tracked(c, d));
            for p in ALL_PROV {
                c.case("tri", || format!("{d:?} {p:?}"), |c| tri::<i32>(c, d, p));
            }
            c.case("tri f32", || format!("{d:?}"), |c| tri::<f32>(c, d, Prov::Mid));
        }
        for n in lengths(c, 0) {
            c.case("const long", || format!("{n}"), |c| consts::<f32>(c, &[n]));
            c.case("const long i16", || format!("{n}"), |c| consts::<i16>(c, &[n]));
            if n <= 20000 {
                c.case("init long", || format!("{n}"), |c| inits(c, &[n]));
            }
        }
        for d in long_shapes(c, 2, 6) {
            c.case("init long shapes", || format!("{d:?}"), |c| inits(c, &d));
            c.case("tri long", || format!("{d:?}"), |c| tri::<i32>(c, &d, Prov::Own));
        }
        for n in 1..=c.pick(70, 140) {
            c.case("eye i32", || format!("{n}"), |c| matrices::<i32>(c, n));
            c.case("eye f32", || format!("{n}"), |c| matrices::<f32>(c, n));
            c.case("eye f64", || format!("{n}"), |c| matrices::<f64>(c, n));
            c.case("eye u8", || format!("{n}"), |c| matrices::<u8>(c, n));
            for p in ALL_PROV {
                c.case("diagflat", || format!("{n} {p:?}"), |c| diag::<i32>(c, n, p));
            }
            c.case("diagflat f32", || format!("{n}"), |c| diag::<f32>(c, n, Prov::Mid));
        }
        for n in [100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025] {
            c.case("eye long", || format!("{n}"), |c| matrices::<i32>(c, n));
            c.case("diagflat long", || format!("{n}"), |c| diag::<i64>(c, n, Prov::Own));
        }
        for depth in 0..=c.pick(6, 8) {
            for k in 0..=3 {
                for idx in lists(k, &(0..=depth).collect::<Vec<_>>()) {
                    c.case("one_hot", || format!("{idx:?} of {depth}"), |c| one_hot(c, &idx, depth));
                }
            }
        }
        for depth in [16, 63, 64, 65, 255, 256, 257, 1000] {
            for i in [0, 1, depth / 2, depth - 1, depth, depth + 1, usize::MAX] {
                c.case("one_hot long", || format!("{i} of {depth}"), |c| one_hot(c, &[i], depth));
            }
        }
        for depth in (7..=c.pick(80, 200)).chain([127, 128, 129, 255, 256, 257, 300, 1000, 1025, 65537]) {
            c.case("one_hot many", || format!("of {depth}"), |c| {
                if depth <= 300 {
                    for i in 0..depth { one_hot(c, &[i], depth)?; }
                    for i in 0..depth { one_hot(c, &[i, (i * 7 + 3) % depth], depth)?; }
                }
                for k in (4..=40).chain([63, 64, 65, 100, 255, 256, 257]) {
                    let idx: Vec<usize> = (0..k).map(|i| (i * 37 + k) % depth).collect();
                    one_hot(c, &idx, depth)?;
                    for at in [0, k / 2, k - 1] {
                        let mut bad = idx.clone();
                        bad[at] = depth + at % 2;
                        one_hot(c, &bad, depth)?;
                    }
                }
                Ok(())
            });
        }
        let top = c.pick(6, 9);
        for r in 1..=3 {
            for lens in lists(r, &(1..=top).collect::<Vec<_>>()) {
                c.case("meshgrid", || format!("{lens:?}"), |c| grid::<i32>(c, &lens, Prov::Own));
                c.case("meshgrid view", || format!("{lens:?}"), |c| grid::<String>(c, &lens, Prov::Mid));
            }
        }
        for n in long_axis(c) {
            for lens in [vec![n], vec![n, 2], vec![2, n], vec![n, 1, 2], vec![1, n, 2], vec![2, 3, n], vec![n, n.min(40)]] {
                c.case("meshgrid long", || format!("{lens:?}"), |c| grid::<u64>(c, &lens, Prov::Tail));
            }
        }
        c.case("mgrid", || "1 1".into(), mgrid::<1, 1>);
        c.case("mgrid", || "2 3".into(), mgrid::<2, 3>);
        c.case("mgrid", || "3 2".into(), mgrid::<3, 2>);
        c.case("mgrid", || "1 5".into(), mgrid::<1, 5>);
        c.case("mgrid", || "5 1".into(), mgrid::<5, 1>);
        c.case("mgrid", || "7 9".into(), mgrid::<7, 9>);
        c.case("mgrid", || "33 17".into(), mgrid::<33, 17>);
        sized(&Tensor::<f32>::zeros(Shape::scalar()));
    });
}
