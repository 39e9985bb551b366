//! C10: conversions keep every element, its order and the nesting.
use essay_tensor::ten;
use essay_tensor::tensor::{scalar, IntoTensorList, Tensor, Type};
use mc::track::Tr;
use mc::*;

fn chk<T: Elem>(c: &mut Ctx, what: &str, t: Result<Tensor<T>, String>, d: &[usize], data: &[T]) -> R {
    c.tick();
    c.outcome(&(what, d));
    ctx_err(what, same(&t.map_err(|e| format!("{what}: {e}"))?, &M::new(d, data.to_vec())))
}

fn seq<T: Elem>(n: usize) -> Vec<T> {
    (0..n).map(|i| T::nth(i + 1)).collect()
}

fn arr<T: Elem, const N: usize>(b: usize) -> [T; N] {
    std::array::from_fn(|i| T::nth(b + i))
}

fn flat1<T: Elem>(c: &mut Ctx, n: usize, spare: usize) -> R {
    let v = seq::<T>(n);
    let d = [n];
    let mut w: Vec<T> = Vec::with_capacity(n + spare);
    w.extend(v.iter().cloned());
    chk(c, "From<Vec>", catch(|| Tensor::from(w.clone())), &d, &v)?;
    let mut w2: Vec<T> = Vec::with_capacity(n + spare);
    w2.extend(v.iter().cloned());
    chk(c, "From<Vec> spare", catch(|| Tensor::from(w2)), &d, &v)?;
    chk(c, "From<&Vec>", catch(|| Tensor::from(&v)), &d, &v)?;
    chk(c, "From<&[T]>", catch(|| Tensor::from(v.as_slice())), &d, &v)?;
    chk(c, "from_slice", catch(|| Tensor::from_slice(&v)), &d, &v)?;
    chk(c, "from_vec", catch(|| Tensor::from_vec(v.clone(), n)), &d, &v)?;
    chk(c, "from_box", catch(|| Tensor::from_box(v.clone().into_boxed_slice(), n)), &d, &v)?;
    chk(c, "collect", catch(|| v.iter().cloned().collect()), &d, &v)?;
    chk(c, "collect &", catch(|| v.iter().collect()), &d, &v)?;
    // iterators without an exact size, and with a misleading lower bound
    chk(c, "collect filter", catch(|| v.iter().cloned().filter(|_| true).collect()), &d, &v)?;
    chk(c, "collect & filter", catch(|| v.iter().filter(|_| true).collect()), &d, &v)?;
    let mut it = v.clone().into_iter();
    chk(c, "collect from_fn", catch(|| std::iter::from_fn(|| it.next()).collect()), &d, &v)?;
    chk(c, "collect chain", catch(|| v[..n / 3].iter().chain(v[n / 3..].iter()).collect()), &d, &v)?;
    chk(c, "collect rev", catch(|| v.iter().rev().collect()), &d, &v.iter().rev().cloned().collect::<Vec<T>>())?;
    // a tensor from a tensor
    let t = Tensor::from(v.clone());
    chk(c, "From<&Tensor>", catch(|| Tensor::from(&t)), &d, &v)?;
    chk(c, "collect from tensor", catch(|| t.iter().collect()), &d, &v)?;
    for (k, rows) in [(0, 0), (1, 1), (2, 3)] {
        let vv: Vec<Vec<T>> = (0..rows).map(|r| v[..(n / (r + 1)).saturating_sub(k % 2)].to_vec()).collect();
        let want: Vec<T> = vv.iter().flatten().cloned().collect();
        chk(c, "join_vec", catch(|| Tensor::join_vec(&vv)), &[want.len()], &want)?;
    }
    c.state(&(std::any::type_name::<T>(), n));
    Ok(())
}

fn scalars<T: Elem>(c: &mut Ctx) -> R {
    for i in 0..4 {
        let v = T::nth(i + 1);
        let w = std::slice::from_ref(&v);
        chk(c, "From<T>", catch(|| Tensor::from(v.clone())), &[], w)?;
        chk(c, "scalar", catch(|| scalar(v.clone())), &[], w)?;
        chk(c, "from_scalar", catch(|| Tensor::from_scalar(v.clone())), &[], w)?;
        chk(c, "from_vec []", catch(|| Tensor::from_vec(vec![v.clone()], [])), &[], w)?;
        chk(c, "From<Some>", catch(|| Tensor::<T>::from(Some(v.clone()))), &[], w)?;
    }
    chk::<T>(c, "From<None>", catch(|| Tensor::<T>::from(None)), &[0], &[])?;
    chk::<T>(c, "From<[T;0]>", catch(|| Tensor::from([] as [T; 0])), &[0], &[])?;
    Ok(())
}

fn rows<T: Elem, const N: usize>(c: &mut Ctx, n: usize, spare: usize) -> R {
    let v: Vec<[T; N]> = (0..n).map(|i| arr(i * N + 1)).collect();
    let want = seq::<T>(n * N);
    let d = [n, N];
    let mut w: Vec<[T; N]> = Vec::with_capacity(n + spare);
    w.extend(v.iter().cloned());
    chk(c, "From<Vec<[T;N]>>", catch(|| Tensor::from(w)), &d, &want)?;
    chk(c, "From<&Vec<[T;N]>>", catch(|| Tensor::from(&v)), &d, &want)?;
    chk(c, "From<&[[T;N]]>", catch(|| Tensor::from(v.as_slice())), &d, &want)?;
    chk(c, "empty From<&Vec<Vec<[T;N]>>>", catch(|| { let t = Tensor::from(&Vec::<Vec<[T; N]>>::new()); if t.size() == 0 && t.rank() == 3 { t.reshape([0]) } else { t } }), &[0], &[])?;
    {
        // nested: k outer x n x N
        for k in 1..=3 {
            let vv: Vec<Vec<[T; N]>> = (0..k).map(|j| (0..n).map(|i| arr((j * n + i) * N + 1)).collect()).collect();
            chk(c, "From<&Vec<Vec<[T;N]>>>", catch(|| Tensor::from(&vv)), &[k, n, N], &seq::<T>(k * n * N))?;
        }
    }
    c.state(&(n, N, std::any::type_name::<T>()));
    Ok(())
}

fn nest2<T: Elem>(a: usize, b: usize, base: usize) -> Vec<Vec<T>> {
    (0..a).map(|i| (0..b).map(|j| T::nth(base + i * b + j)).collect()).collect()
}

fn nested<T: Elem>(c: &mut Ctx, d: &[usize]) -> R {
    let want = seq::<T>(size(d));
    let r = match *d {
        [a, b] => catch(|| Tensor::from(&nest2::<T>(a, b, 1))),
        [e, a, b] => {
            let v: Vec<_> = (0..e).map(|i| nest2::<T>(a, b, 1 + i * a * b)).collect();
            catch(|| Tensor::from(&v))
        }
        [f, e, a, b] => {
            let v: Vec<Vec<_>> = (0..f).map(|k| (0..e).map(|i| nest2::<T>(a, b, 1 + (k * e + i) * a * b)).collect()).collect();
            catch(|| Tensor::from(&v))
        }
        [g, f, e, a, b] => {
            let v: Vec<Vec<Vec<_>>> = (0..g).map(|l| (0..f).map(|k| (0..e).map(|i| nest2::<T>(a, b, 1 + ((l * f + k) * e + i) * a * b)).collect()).collect()).collect();
            catch(|| Tensor::from(&v))
        }
        _ => unreachable!(),
    };
    c.state(&d);
    if let Some(z) = d.iter().position(|n| *n == 0) {
        // the lengths below the first empty level are not determined
        c.tick();
        let t = r.map_err(|e| format!("empty nested vectors: unexpected panic: {e}"))?;
        let got = t.shape().as_vec();
        if got.len() != d.len() || got[..=z] != d[..=z] || t.size() != 0 || t.iter().count() != 0 {
            return Err(format!("empty nested vectors {d:?}: dimensions {got:?}, size {}", t.size()));
        }
        return Ok(());
    }
    chk(c, "nested vectors", r, d, &want)
}

fn arr2<T: Elem, const N: usize, const A: usize>(b: usize) -> [[T; N]; A] {
    std::array::from_fn(|i| arr(b + i * N))
}

fn arrays<T: Elem, const N: usize, const A: usize>(c: &mut Ctx) -> R {
    chk(c, "From<[T;N]>", catch(|| Tensor::from(arr::<T, N>(1))), &[N], &seq::<T>(N))?;
    chk(c, "From<[[T;N];M]>", catch(|| Tensor::from(arr2::<T, N, A>(1))), &[A, N], &seq::<T>(N * A))?;
    let a1: [[[T; N]; A]; 1] = [arr2(1)];
    let a2: [[[T; N]; A]; 2] = std::array::from_fn(|i| arr2(1 + i * N * A));
    let a3: [[[T; N]; A]; 3] = std::array::from_fn(|i| arr2(1 + i * N * A));
    chk(c, "[[[;N];M];1]", catch(|| Tensor::from(a1.clone())), &[1, A, N], &seq::<T>(N * A))?;
    chk(c, "[[[;N];M];2]", catch(|| Tensor::from(a2.clone())), &[2, A, N], &seq::<T>(N * A * 2))?;
    chk(c, "[[[;N];M];3]", catch(|| Tensor::from(a3)), &[3, A, N], &seq::<T>(N * A * 3))?;
    let b1: [[[[T; N]; A]; 2]; 1] = [a2];
    let b3: [[[[T; N]; A]; 1]; 3] = std::array::from_fn(|i| [arr2(1 + i * N * A)]);
    let b2: [[[[T; N]; A]; 2]; 2] = std::array::from_fn(|i| std::array::from_fn(|j| arr2(1 + (i * 2 + j) * N * A)));
    chk(c, "[[[[;N];M];2];1]", catch(|| Tensor::from(b1)), &[1, 2, A, N], &seq::<T>(N * A * 2))?;
    chk(c, "[[[[;N];M];1];3]", catch(|| Tensor::from(b3)), &[3, 1, A, N], &seq::<T>(N * A * 3))?;
    chk(c, "[[[[;N];M];2];2]", catch(|| Tensor::from(b2)), &[2, 2, A, N], &seq::<T>(N * A * 4))
}

const WORDS: [&str; 5] = ["", "a", "élan", "\u{0}x", "long words, with spaces\tand more\n"];

fn strings(c: &mut Ctx, n: usize) -> R {
    string_list(c, (0..n).map(|i| WORDS[i % 5].to_string() + &i.to_string()).collect())
}

fn string_list(c: &mut Ctx, words: Vec<String>) -> R {
    let n = words.len();
    let refs: Vec<&str> = words.iter().map(|s| s.as_str()).collect();
    chk(c, "Vec<&str>", catch(|| Tensor::from(refs.clone())), &[n], &words)?;
    for w in &words {
        chk(c, "&str", catch(|| Tensor::from(w.as_str())), &[], std::slice::from_ref(w))?;
    }
    match refs.as_slice() {
        [] => chk(c, "[&str;0]", catch(|| Tensor::from([] as [&str; 0])), &[0], &[]),
        [a] => chk(c, "[&str;1]", catch(|| Tensor::from([*a])), &[1], &words),
        [a, b] => chk(c, "[&str;2]", catch(|| Tensor::from([*a, *b])), &[2], &words),
        [a, b, d] => chk(c, "[&str;3]", catch(|| Tensor::from([*a, *b, *d])), &[3], &words),
        [a, b, d, e] => chk(c, "[&str;4]", catch(|| Tensor::from([*a, *b, *d, *e])), &[4], &words),
        [a, b, d, e, f] => chk(c, "[&str;5]", catch(|| Tensor::from([*a, *b, *d, *e, *f])), &[5], &words),
        _ => Ok(()),
    }
}

fn list<T: Type, L: IntoTensorList<T>>(l: L) -> Vec<Tensor<T>> {
    let mut v = Vec::new();
    l.into_list(&mut v);
    v
}

fn tensors(c: &mut Ctx, d: &[usize], n: usize, p: Prov) -> R {
    let ms: Vec<M<i32>> = (0..n).map(|i| M::seq(d, 1 + i * size(d))).collect();
    let ts: Vec<Tensor<i32>> = ms.iter().map(|m| build(m, p)).collect();
    let want = seq::<i32>(n * size(d));
    let od = [&[n], d].concat();
    chk(c, "From<&Vec<Tensor>>", catch(|| Tensor::from(&ts)), &od, &want)?;
    chk(c, "From<&[Tensor]>", catch(|| Tensor::from(ts.as_slice())), &od, &want)?;
    match ts.as_slice() {
        [a] => chk(c, "From<[Tensor;1]>", catch(|| Tensor::from([a.clone()])), &od, &want)?,
        [a, b] => chk(c, "From<[Tensor;2]>", catch(|| Tensor::from([a.clone(), b.clone()])), &od, &want)?,
        [a, b, e] => chk(c, "From<[Tensor;3]>", catch(|| Tensor::from([a.clone(), b.clone(), e.clone()])), &od, &want)?,
        _ => {}
    }
    // different shapes are refused
    if n > 0 {
        for other in [vec![size(d) + 1], [d, &[1]].concat(), [&[1], d].concat(), d.iter().rev().copied().collect()] {
            if other == d || other.len() > 6 {
                continue;
            }
            for at in 0..=n {
                let mut l = ts.clone();
                l.insert(at, build(&M::seq(&other, 1), p));
                if l[0].rank() < 6 {
                    c.tick();
                    refused(&format!("list with {other:?} at {at}"), || Tensor::from(&l))?;
                }
            }
        }
    }
    // lists of tensors and vectors keep their members in order
    let refs: Vec<&Tensor<i32>> = ts.iter().collect();
    let mut got = vec![
        ("Vec<Tensor>", list(ts.clone())),
        ("Vec<&Tensor>", list(refs.clone())),
        ("&[Tensor]", list(ts.as_slice())),
        ("&[&Tensor]", list(refs.as_slice())),
    ];
    match ts.as_slice() {
        [a] => got.extend([("[;1]", list([a.clone()])), ("[&;1]", list([a])), ("(1)", list((a,)))]),
        [a, b] => got.extend([("[;2]", list([a.clone(), b.clone()])), ("[&;2]", list([a, b])), ("(2)", list((a, b.clone())))]),
        [a, b, e] => got.extend([("[;3]", list([a.clone(), b.clone(), e.clone()])), ("[&;3]", list([a, b, e])), ("(3)", list((a, b, e.clone())))]),
        [a, b, e, f] => got.push(("(4)", list((a, b, e, f)))),
        [a, b, e, f, g] => got.push(("(5)", list((a, b, e, f, g)))),
        [a, b, e, f, g, h] => got.push(("(6)", list((a, b, e, f, g, h)))),
        [a, b, e, f, g, h, i] => got.push(("(7)", list((a, b, e, f, g, h, i)))),
        [a, b, e, f, g, h, i, j] => got.push(("(8)", list((a, b, e, f, g, h, i, j)))),
        [a, b, e, f, g, h, i, j, k] => got.push(("(9)", list((a, b, e, f, g, h, i, j, k)))),
        [a, b, e, f, g, h, i, j, k, l] => got.push(("(10)", list((a, b, e, f, g, h, i, j, k, l)))),
        _ => {}
    }
    for (what, l) in &got {
        c.tick();
        if l.len() != n {
            return Err(format!("{what}: {} members of {n}", l.len()));
        }
        for (t, m) in l.iter().zip(&ms) {
            ctx_err(what, same(t, m))?;
        }
    }
    if d.len() == 1 {
        let vs: Vec<Vec<i32>> = ms.iter().map(|m| m.data.clone()).collect();
        let rs: Vec<&Vec<i32>> = vs.iter().collect();
        let mut got = vec![("Vec<Vec>", list(vs.clone())), ("Vec<&Vec>", list(rs.clone())), ("&[Vec]", list(vs.as_slice())), ("&[&Vec]", list(rs.as_slice()))];
        match vs.as_slice() {
            [a] => got.extend([("[Vec;1]", list([a.clone()])), ("[&Vec;1]", list([a])), ("(Vec)", list((a.clone(),)))]),
            [a, b] => got.extend([("[Vec;2]", list([a.clone(), b.clone()])), ("[&Vec;2]", list([a, b])), ("(Vec,&Vec)", list((a.clone(), b)))]),
            _ => {}
        }
        for (what, l) in &got {
            c.tick();
            if l.len() != n {
                return Err(format!("{what}: {} members of {n}", l.len()));
            }
            for (t, m) in l.iter().zip(&ms) {
                ctx_err(what, same(t, m))?;
            }
        }
    }
    c.state(&(d, n, p as u8));
    Ok(())
}

fn macros(c: &mut Ctx) -> R {
    chk(c, "ten![3]", Ok(ten![1, 2, 3]), &[3], &seq::<i32>(3))?;
    chk(c, "ten![[..]]", Ok(ten![[1, 2, 3], [4, 5, 6]]), &[2, 3], &seq::<i32>(6))?;
    chk(c, "ten![[..],]", Ok(ten![[1, 2,], [3, 4,], [5, 6,],]), &[3, 2], &seq::<i32>(6))?;
    chk(c, "ten![[[..]]]", Ok(ten![[[1, 2], [3, 4]], [[5, 6], [7, 8]], [[9, 10], [11, 12]]]), &[3, 2, 2], &seq::<i32>(12))?;
    chk(c, "ten![x]", Ok(ten![1]), &[1], &seq::<i32>(1))
}

/// Owned conversions do not clone the elements.
fn moved(c: &mut Ctx, n: usize) -> R {
    track::reset();
    let v: Vec<Tr> = (0..n).map(|i| Tr::new(i as i64)).collect();
    track::reset_points();
    let t = Tensor::from(v);
    c.tick();
    if track::points() != 0 {
        return Err("an owned vector was cloned".into());
    }
    let got: Vec<i64> = t.iter().map(|x| x.get()).collect();
    if got != (0..n as i64).collect::<Vec<_>>() {
        return Err(format!("{got:?}"));
    }
    drop(t);
    track::check()
}

/// Conversions every element type has.
fn common<T: Elem>(c: &mut Ctx, name: &str) {
    c.case("scalars", || name.into(), scalars::<T>);
    for n in 0..=c.pick(12, 40) {
        for spare in [0, 1, 7] {
            c.case("flat", || format!("{name} {n} +{spare}"), |c| flat1::<T>(c, n, spare));
        }
        c.case("rows 2", || format!("{name} {n}"), |c| rows::<T, 2>(c, n, n % 3));
    }
    for d in lists(2, &[0, 1, 2, 3]).into_iter().chain(lists(3, &[1, 2])) {
        c.case("nested", || format!("{name} {d:?}"), |c| nested::<T>(c, &d));
    }
    c.case("arrays", || format!("{name} 2 3"), arrays::<T, 2, 3>);
}

/// All nestings, for one element type of each size.
fn nestings<T: Elem>(c: &mut Ctx, name: &str) {
    for n in 0..=c.pick(12, 40) {
        c.case("rows 1", || format!("{name} {n}"), |c| rows::<T, 1>(c, n, n % 3));
        c.case("rows 3", || format!("{name} {n}"), |c| rows::<T, 3>(c, n, n % 3));
        c.case("rows 7", || format!("{name} {n}"), |c| rows::<T, 7>(c, n, n % 3));
    }
    c.case("rows 0", || name.into(), |c| rows::<T, 0>(c, 3, 1));
    for r in 2..=5 {
        for d in lists(r, &[0, 1, 2, 3]) {
            c.case("nested", || format!("{name} {d:?}"), |c| nested::<T>(c, &d));
        }
    }
    c.case("arrays", || format!("{name} 1 1"), arrays::<T, 1, 1>);
    c.case("arrays", || format!("{name} 1 3"), arrays::<T, 1, 3>);
    c.case("arrays", || format!("{name} 3 1"), arrays::<T, 3, 1>);
    c.case("arrays", || format!("{name} 3 2"), arrays::<T, 3, 2>);
    c.case("arrays", || format!("{name} 4 4"), arrays::<T, 4, 4>);
    c.case("arrays", || format!("{name} 5 2"), arrays::<T, 5, 2>);
}

/// An iterator with a chosen size hint.
struct Hint<I>(I, (usize, Option<usize>));

impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let v = self.0.next();
        if v.is_some() {
            self.1 = (self.1.0.saturating_sub(1), self.1.1.map(|n| n - 1));
        }
        v
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

/// Every truthful size hint of an iterator of n elements.
fn hints<T: Elem>(c: &mut Ctx, n: usize) -> R {
    let v = seq::<T>(n);
    for lower in 0..=n {
        for upper in [Some(n), Some(n + 1), Some(2 * n + 3), Some(usize::MAX), None] {
            let what = format!("collect with size hint {lower}..{upper:?}");
            chk(c, &what, catch(|| Hint(v.iter().cloned(), (lower, upper)).collect()), &[n], &v)?;
            chk(c, &what, catch(|| Hint(v.iter(), (lower, upper)).collect()), &[n], &v)?;
        }
        // the exact part first or last
        chk(c, "collect chained filter", catch(|| v[..lower].iter().chain(v[lower..].iter().filter(|_| true)).collect()), &[n], &v)?;
        chk(c, "collect filter chained", catch(|| v[..lower].iter().filter(|_| true).chain(v[lower..].iter()).cloned().collect()), &[n], &v)?;
    }
    c.state(&("hints", n));
    Ok(())
}

fn main() {
    run("C10", |c| {
        macro_rules! types {
            ($f:ident: $($t:ty),*) => { $( $f::<$t>(c, stringify!($t)); )* };
        }
        types!(common: i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, f32, f64, String, bool, (u8, u64), num_complex::Complex<f32>);
        types!(nestings: u8, u16, i32, f64, String, u128, (u8, u64));
        for n in (0..=c.pick(20, 40)).chain([63, 64, 65, 129]) {
            c.case("size hints", || format!("i32 {n}"), |c| hints::<i32>(c, n));
            c.case("size hints", || format!("String {n}"), |c| hints::<String>(c, n));
        }
        for n in lengths(c, 0) {
            c.case("flat long", || format!("{n}"), |c| flat1::<i32>(c, n, 3));
            c.case("flat long u8", || format!("{n}"), |c| flat1::<u8>(c, n, 0));
            if n <= 700 {
                c.case("rows long", || format!("{n}"), |c| rows::<i64, 3>(c, n, 1));
                c.case("rows long 17", || format!("{n}"), |c| rows::<i32, 17>(c, n, 1));
                c.case("moved", || format!("{n}"), |c| moved(c, n));
            }
        }
        for d in long_shapes(c, 2, 5) {
            c.case("nested long", || format!("{d:?}"), |c| nested::<i32>(c, &d));
        }
        for n in 0..12 {
            if n <= 4 {
                for l in lists(n, &[0, 1, 2, 3, 4]) {
                    c.case("string lists", || format!("{l:?}"), |c| string_list(c, l.iter().map(|i| WORDS[*i].to_string()).collect()));
                }
            }
            c.case("strings", || format!("{n}"), |c| strings(c, n));
        }
        c.case("macros", || "ten!".into(), macros);
        for d in [vec![], vec![1], vec![3], vec![2, 3], vec![1, 4], vec![2, 2, 2], vec![1, 2, 1, 3], vec![2, 1, 1, 1, 2]] {
            for n in 1..=10 {
                for p in [Prov::Own, Prov::Mid, Prov::OuterTail, Prov::Nested] {
                    c.case("tensors", || format!("{d:?} x {n} {p:?}"), |c| tensors(c, &d, n, p));
                }
            }
        }
        for n in [15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257] {
            c.case("many tensors", || format!("{n}"), |c| tensors(c, &[2, 3], n, Prov::Mid));
        }
    });
}
