//! C18: concatenation, stacking and their variants.
use essay_tensor::array;
use essay_tensor::tensor::{Axis, Tensor};
use mc::*;

fn concat_model<T: Clone>(ms: &[M<T>], axis: usize) -> M<T> {
    let mut d = ms[0].dims.clone();
    d[axis] = ms.iter().map(|m| m.dims[axis]).sum();
    let mut data = Vec::new();
    for idx in indices(&d) {
        let mut i = idx.clone();
        let mut k = 0;
        while i[axis] >= ms[k].dims[axis] {
            i[axis] -= ms[k].dims[axis];
            k += 1;
        }
        data.push(ms[k].data[flat(&ms[k].dims, &i)].clone());
    }
    M::new(&d, data)
}

fn stack_model<T: Clone>(ms: &[M<T>], axis: usize) -> M<T> {
    let mut d = ms[0].dims.clone();
    d.insert(axis, ms.len());
    let mut data = Vec::new();
    for idx in indices(&d) {
        let mut i = idx.clone();
        let k = i.remove(axis);
        data.push(ms[k].data[flat(&ms[k].dims, &i)].clone());
    }
    M::new(&d, data)
}

/// Inputs with the given dimensions and distinct elements.
fn inputs<T: Elem>(ds: &[Vec<usize>]) -> Vec<M<T>> {
    let mut base = 1;
    ds.iter().map(|d| {
        let m = M::seq(d, base);
        base += m.data.len();
        m
    }).collect()
}

fn tens<T: Elem>(ms: &[M<T>], p: Prov) -> Vec<Tensor<T>> {
    ms.iter().enumerate().map(|(i, m)| build(m, if i % 2 == 1 && p == Prov::Nested { Prov::Own } else { p })).collect()
}

fn keep<T: Elem>(ms: &[M<T>], ts: &[Tensor<T>]) -> R {
    for (m, t) in ms.iter().zip(ts) {
        ctx_err("input afterwards", same(t, m))?;
    }
    Ok(())
}

/// Concatenation of tensors that agree except along the axis.
fn concat<T: Elem>(c: &mut Ctx, ds: &[Vec<usize>], ax: (isize, usize), p: Prov) -> R {
    let ms = inputs::<T>(ds);
    let ts = tens(&ms, p);
    concat_of(c, ds, &ms, &ts, ax)
}

fn concat_of<T: Elem>(c: &mut Ctx, ds: &[Vec<usize>], ms: &[M<T>], ts: &[Tensor<T>], ax: (isize, usize)) -> R {
    let want = concat_model(ms, ax.1);
    c.state(&(ds, ax));
    c.outcome(&want.dims);
    c.ticks(2);
    ctx_err("concatenate_axis", same(&ok("concatenate_axis", || array::concatenate_axis(ax.0, &ts[..]))?, &want))?;
    ctx_err("a.concatenate_axis", same(&ok("a.concatenate_axis", || ts[0].concatenate_axis(ax.0, &ts[1..]))?, &want))?;
    if ax.1 == 0 && ax.0 == 0 {
        c.ticks(3);
        ctx_err("concatenate", same(&ok("concatenate", || array::concatenate(&ts[..]))?, &want))?;
        ctx_err("a.concatenate", same(&ok("a.concatenate", || ts[0].concatenate(&ts[1..]))?, &want))?;
        let sz = want.data.len();
        ctx_err("from_merge", same(&ok("from_merge", || Tensor::from_merge(ts, shape(&[sz])))?, &M::new(&[sz], want.data.clone())))?;
        ctx_err("from_merge", same(&ok("from_merge", || Tensor::from_merge(ts, shape(&want.dims)))?, &want))?;
        for delta in [1, sz.max(1)] {
            refused("from_merge with a larger shape", || Tensor::from_merge(ts, shape(&[sz + delta])))?;
            if sz >= delta {
                refused("from_merge with a smaller shape", || Tensor::from_merge(ts, shape(&[sz - delta])))?;
            }
        }
    }
    if (ds[0].len() == 1 && ax.0 == 0) || ax.0 == 1 {
        c.tick();
        ctx_err("hstack", same(&ok("hstack", || array::hstack(&ts[..]))?, &want))?;
    }
    if ax.0 == 0 && ts.len() == 2 && want.data.len() > 0 {
        append(c, ms, ts, &want)?;
    }
    keep(ms, ts)
}

/// append joins along the outermost axis
fn append<T: Elem>(c: &mut Ctx, _ms: &[M<T>], ts: &[Tensor<T>], want: &M<T>) -> R {
    c.ticks(2);
    ctx_err("append", same(&ok("append", || ts[0].append(&ts[1]))?, want))?;
    ctx_err("append owned", same(&ok("append", || ts[0].clone().append(ts[1].clone()))?, want))
}

/// Arbitrary shapes: refused exactly when they cannot be joined.
fn concat_any(c: &mut Ctx, ds: &[Vec<usize>], axis: usize) -> R {
    let rank = ds[0].len();
    let fits = ds.iter().all(|d| d.len() == rank && (0..rank).all(|i| i == axis || d[i] == ds[0][i]));
    if fits {
        return concat::<u16>(c, ds, (axis as isize, axis), Prov::Own);
    }
    let ms = inputs::<u16>(ds);
    let ts = tens(&ms, Prov::Mid);
    c.ticks(2);
    c.state(&(ds, axis));
    refused("concatenate_axis", || array::concatenate_axis(axis as isize, &ts[..]))?;
    refused("a.concatenate_axis", || ts[0].concatenate_axis(axis as isize, &ts[1..]))?;
    if axis == 0 {
        refused("concatenate", || array::concatenate(&ts[..]))?;
        if ts.len() == 2 {
            c.tick();
            refused("append", || ts[0].append(&ts[1]))?;
        }
    }
    if (rank == 1 && axis == 0) || axis == 1 {
        refused("hstack", || array::hstack(&ts[..]))?;
    }
    keep(&ms, &ts)
}

fn stack<T: Elem>(c: &mut Ctx, d: &[usize], n: usize, ax: (isize, usize), p: Prov) -> R {
    let ds = vec![d.to_vec(); n];
    let ms = inputs::<T>(&ds);
    let ts = tens(&ms, p);
    stack_of(c, d, &ms, &ts, ax)
}

fn stack_of<T: Elem>(c: &mut Ctx, d: &[usize], ms: &[M<T>], ts: &[Tensor<T>], ax: (isize, usize)) -> R {
    let n = ts.len();
    c.state(&(d, n, ax));
    c.ticks(2);
    if d.len() == 6 {
        refused("stack_axis to rank 7", || array::stack_axis(ax.0, &ts[..]))?;
        refused("vstack to rank 7", || array::vstack(&ts[..]))?;
        return keep(ms, ts);
    }
    let want = stack_model(ms, ax.1);
    c.outcome(&want.dims);
    ctx_err("stack_axis", same(&ok("stack_axis", || array::stack_axis(ax.0, &ts[..]))?, &want))?;
    ctx_err("a.stack", same(&ok("a.stack", || ts[0].stack(&ts[1..], ax.0))?, &want))?;
    if ax.0 == 0 {
        c.ticks(5);
        ctx_err("stack", same(&ok("stack", || array::stack(&ts[..]))?, &want))?;
        ctx_err("stack_axis None", same(&ok("stack_axis", || array::stack_axis(None, &ts[..]))?, &want))?;
        ctx_err("vstack", same(&ok("vstack", || array::vstack(&ts[..]))?, &want))?;
        ctx_err("a.vstack", same(&ok("a.vstack", || ts[0].vstack(&ts[1..]))?, &want))?;
        if !d.is_empty() {
            let r3 = |m: &M<T>| match d.len() {
                1 => M::new(&[1, d[0], 1], m.data.clone()),
                2 => M::new(&[d[0], d[1], 1], m.data.clone()),
                _ => m.clone(),
            };
            let want = concat_model(&ms.iter().map(r3).collect::<Vec<_>>(), 2);
            ctx_err("dstack", same(&ok("dstack", || array::dstack(&ts[..]))?, &want))?;
            ctx_err("a.dstack", same(&ok("a.dstack", || ts[0].dstack(&ts[1..]))?, &want))?;
        }
    }
    keep(ms, ts)
}

/// Windows (first row, rows) of one storage as operands.
fn windows(c: &mut Ctx, inner: &[usize], rows: usize, ws: &[(usize, usize)]) -> R {
    let dims: Vec<usize> = [&[rows], inner].concat();
    let m = M::<i32>::seq(&dims, 1);
    let t = build(&m, Prov::Own);
    let k = size(inner);
    let ts: Vec<Tensor<i32>> = ws.iter().map(|(at, n)| t.subslice(*at, *n)).collect();
    let ms: Vec<M<i32>> = ws.iter().map(|(at, n)| M::new(&[&[*n], inner].concat(), m.data[at * k..(at + n) * k].to_vec())).collect();
    let ds: Vec<Vec<usize>> = ms.iter().map(|m| m.dims.clone()).collect();
    concat_of(c, &ds, &ms, &ts, (0, 0))?;
    if ds.iter().all(|d| *d == ds[0]) {
        for ax in 1..ds[0].len() {
            concat_of(c, &ds, &ms, &ts, (ax as isize, ax))?;
        }
        for ax in 0..=ds[0].len() {
            stack_of(c, &ds[0], &ms, &ts, (ax as isize, ax))?;
        }
    }
    same(&t, &m)
}

fn stack_any(c: &mut Ctx, ds: &[Vec<usize>]) -> R {
    if ds.iter().all(|d| *d == ds[0]) {
        return Ok(());
    }
    let ms = inputs::<i32>(ds);
    let ts = tens(&ms, Prov::Mid);
    c.state(&ds);
    for ax in 0..=ds[0].len() as isize {
        c.tick();
        refused("stack_axis", || array::stack_axis(ax, &ts[..]))?;
        refused("a.stack", || ts[0].stack(&ts[1..], ax))?;
    }
    refused("stack", || array::stack(&ts[..]))?;
    refused("vstack", || array::vstack(&ts[..]))?;
    // differing depth at rank >= 3 is not specified
    let depth_only = ds.iter().all(|d| d.len() == ds[0].len() && d.len() >= 3 && (0..d.len()).all(|i| i == 2 || d[i] == ds[0][i]));
    if !depth_only && ds.iter().all(|d| !d.is_empty()) {
        refused("dstack", || array::dstack(&ts[..]))?;
    }
    keep(&ms, &ts)
}

/// All argument forms give the same list of tensors.
fn forms(c: &mut Ctx, d: &[usize], n: usize) -> R {
    let ds = vec![d.to_vec(); n];
    let ms = inputs::<i64>(&ds);
    let t = tens(&ms, Prov::Own);
    let want = stack_model(&ms, 0);
    let wantc = if d.is_empty() { None } else { Some(concat_model(&ms, 0)) };
    c.state(&(d, n, "forms"));
    macro_rules! go { ($($name:literal, $e:expr;)*) => { $(
        c.ticks(2);
        ctx_err($name, same(&ok($name, || array::stack($e))?, &want))?;
        if let Some(w) = &wantc {
            ctx_err($name, same(&ok($name, || array::concatenate($e))?, w))?;
            ctx_err($name, same(&ok($name, || array::concatenate_axis(0, $e))?, w))?;
        }
        ctx_err($name, same(&ok($name, || array::vstack($e))?, &want))?;
        ctx_err($name, same(&ok($name, || array::stack_axis(Axis::axis(0), $e))?, &want))?;
    )* } }
    go! {
        "Vec<Tensor>", t.clone();
        "Vec<&Tensor>", t.iter().collect::<Vec<_>>();
        "&[Tensor]", &t[..];
        "&[&Tensor]", &t.iter().collect::<Vec<_>>()[..];
    }
    macro_rules! arrays { ($n:literal) => { if n == $n {
        go! {
            "[Tensor;N]", <[Tensor<i64>; $n]>::try_from(t.clone()).unwrap();
            "[&Tensor;N]", <[&Tensor<i64>; $n]>::try_from(t.iter().collect::<Vec<_>>()).unwrap();
        }
        if d.len() == 1 {
            let v: Vec<Vec<i64>> = ms.iter().map(|m| m.data.clone()).collect();
            go! {
                "Vec<Vec>", v.clone();
                "Vec<&Vec>", v.iter().collect::<Vec<_>>();
                "&[Vec]", &v[..];
                "&[&Vec]", &v.iter().collect::<Vec<_>>()[..];
                "[Vec;N]", <[Vec<i64>; $n]>::try_from(v.clone()).unwrap();
                "[&Vec;N]", <[&Vec<i64>; $n]>::try_from(v.iter().collect::<Vec<_>>()).unwrap();
            }
        }
    } } }
    arrays!(1); arrays!(2); arrays!(3); arrays!(4); arrays!(5); arrays!(6); arrays!(7); arrays!(8); arrays!(9); arrays!(10); arrays!(11);
    let k = |i: usize| t[i].clone();
    match n {
        1 => { go! { "tuple 1", (k(0),); } }
        2 => { go! { "tuple 2", (k(0), k(1)); "tuple refs", (&t[0], &t[1]); "tuple mixed", (&t[0], k(1)); } }
        3 => { go! { "tuple 3", (k(0), k(1), k(2)); "tuple refs 3", (&t[0], k(1), &t[2]); } }
        4 => { go! { "tuple 4", (k(0), k(1), k(2), k(3)); } }
        5 => { go! { "tuple 5", (k(0), k(1), k(2), k(3), k(4)); } }
        6 => { go! { "tuple 6", (k(0), k(1), k(2), k(3), k(4), k(5)); } }
        7 => { go! { "tuple 7", (k(0), k(1), k(2), k(3), k(4), k(5), k(6)); } }
        8 => { go! { "tuple 8", (k(0), k(1), k(2), k(3), k(4), k(5), k(6), k(7)); } }
        9 => { go! { "tuple 9", (k(0), k(1), k(2), k(3), k(4), k(5), k(6), k(7), k(8)); } }
        10 => { go! { "tuple 10", (k(0), k(1), k(2), k(3), k(4), k(5), k(6), k(7), k(8), k(9)); } }
        _ => {}
    }
    keep(&ms, &t)
}

fn main() {
    run("C18", |c| {
        for d in [vec![], vec![1], vec![3], vec![2, 3], vec![1, 1], vec![2, 1, 2]] {
            for n in 1..=11 {
                c.case("forms", || format!("{d:?} {n}"), |c| forms(c, &d, n));
            }
        }
        for r in 1..=6usize {
            let set: &[usize] = match r { 1..=3 => &[1, 2, 3], 4 => c.pick(&[1, 2], &[1, 2, 3]), _ => &[1, 2] };
            let lens: &[usize] = match r { 1..=2 => &[0, 1, 2, 3, 4], 3 => &[0, 1, 2, 3], _ => &[1, 2, 3] };
            for rest in lists(r - 1, set) {
                for n in 1..=(if r <= 2 { 4 } else if r <= 4 { 3 } else { 2 }) {
                    for ls in lists(n, lens) {
                        for ax in axes(r) {
                            let ds: Vec<Vec<usize>> = ls.iter().map(|l| { let mut d = rest.clone(); d.insert(ax.1, *l); d }).collect();
                            let p = ALL_PROV[(ls.iter().sum::<usize>() + n + ax.1) % ALL_PROV.len()];
                            c.case("concat", || format!("{ds:?} {ax:?} {p:?}"), |c| concat::<u32>(c, &ds, ax, p));
                            if n == 2 {
                                c.case("concat strings", || format!("{ds:?} {ax:?}"), |c| concat::<String>(c, &ds, ax, Prov::Nested));
                            }
                        }
                    }
                }
            }
        }
        // all lists of windows of one storage
        for (rows, inner, most) in [(4usize, vec![], 3usize), (3, vec![], 4), (3, vec![2], 3), (6, vec![], 2), (2, vec![1, 2], 4), (5, vec![2, 1], 2)] {
            let ws: Vec<(usize, usize)> = (0..rows).flat_map(|a| (1..=rows - a).map(move |n| (a, n))).collect();
            for n in 2..=most {
                for l in lists(n, &(0..ws.len()).collect::<Vec<_>>()) {
                    let w: Vec<_> = l.iter().map(|i| ws[*i]).collect();
                    c.case("windows", || format!("{rows} rows of {inner:?}: {w:?}"), |c| windows(c, &inner, rows, &w));
                }
            }
        }
        // every pair of shapes, joinable or not
        let all: Vec<Vec<usize>> = (0..=3).flat_map(|r| lists(r, &[1, 2, 3])).collect();
        for a in &all {
            for b in &all {
                let ds = [a.clone(), b.clone()];
                for ax in 0..a.len() {
                    c.case("concat any", || format!("{ds:?} {ax}"), |c| concat_any(c, &ds, ax));
                }
                c.case("stack any", || format!("{ds:?}"), |c| stack_any(c, &ds));
            }
        }
        for r in 1..=3 {
            for ls in lists(3 * r, if r <= 2 { &[1, 2, 3] } else { &[1, 2] }) {
                let ds: Vec<Vec<usize>> = ls.chunks(r).map(|d| d.to_vec()).collect();
                for ax in 0..r {
                    c.case("concat any 3", || format!("{ds:?} {ax}"), |c| concat_any(c, &ds, ax));
                }
                c.case("stack any 3", || format!("{ds:?}"), |c| stack_any(c, &ds));
            }
        }
        // the same sizes in another arrangement, and over another number of axes
        for a in [vec![2, 2, 3], vec![2, 3, 2], vec![2, 6, 1], vec![2, 1, 6], vec![2, 6], vec![12], vec![12, 1], vec![1, 12], vec![2, 2, 3, 1], vec![2, 1, 2, 3], vec![2, 1, 1, 2, 3], vec![2, 1, 1, 2, 1, 3]] {
            for b in [vec![1, 2, 3], vec![1, 3, 2], vec![3, 6, 1], vec![3, 1, 6], vec![3, 6], vec![18], vec![18, 1], vec![1, 12], vec![3, 2, 3, 1], vec![3, 1, 2, 3], vec![3, 1, 1, 3, 2], vec![1, 1, 2, 1, 1, 3]] {
                let ds = [a.clone(), b];
                for ax in 0..a.len() {
                    c.case("concat arrangement", || format!("{ds:?} {ax}"), |c| concat_any(c, &ds, ax));
                }
                c.case("stack arrangement", || format!("{ds:?}"), |c| stack_any(c, &ds));
            }
        }
        // one differing dimension at rank 4..6
        for r in 4..=6 {
            for base in [vec![2; r], vec![1; r], (1..=r).collect::<Vec<_>>()] {
                for k in 0..r {
                    for to in [1, 2, 3] {
                        let mut e = base.clone();
                        e[k] = to;
                        let ds = [base.clone(), e.clone()];
                        for ax in 0..r {
                            c.case("concat any high", || format!("{ds:?} {ax}"), |c| concat_any(c, &ds, ax));
                        }
                        c.case("stack any high", || format!("{ds:?}"), |c| stack_any(c, &ds));
                    }
                }
            }
        }
        for d in small_shapes(c.tier, 0, 6) {
            for n in 1..=(if size(&d) > 30 { 2 } else { 4 }) {
                for ax in axes(d.len() + 1) {
                    let p = ALL_PROV[(size(&d) + n + ax.1) % ALL_PROV.len()];
                    c.case("stack", || format!("{d:?} x{n} {ax:?} {p:?}"), |c| stack::<u32>(c, &d, n, ax, p));
                    if n == 2 {
                        c.case("stack strings", || format!("{d:?} x{n} {ax:?}"), |c| stack::<String>(c, &d, n, ax, Prov::Nested));
                    }
                }
            }
        }
        for d in long_shapes(c, 1, 5) {
            if size(&d) > 20_000 { continue; }
            for ax in axes(d.len()).into_iter().step_by(2) {
                let mut e = d.clone();
                e[ax.1] += 1;
                let ds = [e, d.clone()];
                c.case("concat long", || format!("{ds:?} {ax:?}"), |c| concat::<u32>(c, &ds, ax, Prov::Mid));
            }
            for ax in axes(d.len() + 1).into_iter().step_by(2) {
                c.case("stack long", || format!("{d:?} {ax:?}"), |c| stack::<u32>(c, &d, 2, ax, Prov::Tail));
            }
        }
        for n in lengths(c, 1) {
            let few = n.min(300);
            c.case("many", || format!("{few} inputs"), |c| concat::<u32>(c, &vec![vec![2, 2]; few], (1, 1), Prov::Own));
            c.case("many stack", || format!("{few} inputs"), |c| stack::<u32>(c, &[2, 2], few, (1, 1), Prov::Own));
            c.case("length", || format!("{n}"), |c| concat::<u32>(c, &[vec![n], vec![n + 2]], (0, 0), Prov::Own));
        }
    });
}
