//! C06: views show exactly their window, through every accessor.
use essay_tensor::tensor::Tensor;
use mc::probe::{diff, probe_f32, probe_i32};
use mc::*;

#[derive(Clone, Debug)]
enum V {
    Sub(usize, usize),
    Flat(usize, usize, Vec<usize>),
    At(usize),
    At2(usize, usize),
    Reshape(Vec<usize>),
}

/// All shapes of rank <= 3 with n elements (bounded number of factors).
fn factor(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![n]];
    if n == 1 {
        v.push(vec![]);
    }
    for a in 1..=n {
        if n % a == 0 {
            v.push(vec![a, n / a]);
            for b in 1..=n / a {
                if (n / a) % b == 0 && a > 1 {
                    v.push(vec![a, b, n / a / b]);
                }
            }
        }
    }
    v
}

fn moves(m: &M<i32>, level: usize) -> Vec<V> {
    let mut v = Vec::new();
    let n = m.data.len();
    if let Some(d0) = m.dims.first() {
        for off in 0..*d0 {
            for len in 1..=d0 - off {
                v.push(V::Sub(off, len));
            }
            v.push(V::At(off));
        }
        if let Some(d1) = m.dims.get(1) {
            for i in 0..*d0 {
                for j in 0..*d1 {
                    v.push(V::At2(i, j));
                }
            }
        }
    }
    for off in 0..n {
        for len in 1..=n - off {
            let f = factor(len);
            let keep = if level == 0 { f.len() } else { 2.min(f.len()) };
            for s in f.into_iter().take(keep) {
                v.push(V::Flat(off, len, s));
            }
        }
    }
    v.push(V::Flat(n / 2, 0, vec![0]));
    for s in factor(n) {
        if s != m.dims {
            v.push(V::Reshape(s));
        }
    }
    v
}

fn apply<T: Elem>(t: &Tensor<T>, m: &M<T>, v: &V) -> Result<(Tensor<T>, M<T>), String> {
    let what = format!("{v:?}");
    Ok(match v {
        V::Sub(o, l) => {
            let row = m.data.len() / m.dims[0];
            let mut d = m.dims.clone();
            d[0] = *l;
            (ok(&what, || t.subslice(*o, *l))?, M::new(&d, m.data[o * row..(o + l) * row].to_vec()))
        }
        V::Flat(o, l, s) => (ok(&what, || t.subslice_flat(*o, *l, shape(s)))?, M::new(s, m.data[*o..o + l].to_vec())),
        V::At(i) => {
            let row = m.data.len() / m.dims[0];
            (ok(&what, || t.slice(*i))?, M::new(&m.dims[1..], m.data[i * row..(i + 1) * row].to_vec()))
        }
        V::At2(i, j) => {
            let row = m.data.len() / m.dims[0] / m.dims[1];
            let k = (i * m.dims[1] + j) * row;
            (ok(&what, || t.slice((*i, *j)))?, M::new(&m.dims[2..], m.data[k..k + row].to_vec()))
        }
        V::Reshape(s) => (ok(&what, || t.clone().reshape(shape(s)))?, M::new(s, m.data.clone())),
    })
}

/// Every accessor of `t` agrees with the model and with a fresh tensor.
fn agree<T: Elem>(t: &Tensor<T>, m: &M<T>) -> R {
    same(t, m)?;
    let n = m.data.len();
    for i in 0..n + 4 {
        if t.get(i) != m.data.get(i) {
            return Err(format!("get({i}) = {:?}", t.get(i)));
        }
    }
    for i in [n, n + 1, 2 * n + 1, usize::MAX, usize::MAX / 2, usize::MAX - n] {
        if t.get(i).is_some() {
            return Err(format!("get({i}) reports an element of {n}"));
        }
        refused(&format!("[{i}]"), || t[i].clone())?;
    }
    for i in 0..n {
        if ok("index", || t[i].clone())? != m.data[i] {
            return Err(format!("[{i}] = {:?}", t[i]));
        }
    }
    let it: Vec<T> = t.iter().cloned().collect();
    let it2: Vec<T> = t.into_iter().cloned().collect();
    let de: &[T] = t;
    let ar: &[T] = t.as_ref();
    if it != m.data || it2 != m.data || de != &m.data[..] || ar != &m.data[..] {
        return Err(format!("iteration / deref / as_ref gave {it:?} {it2:?} {de:?} {ar:?}"));
    }
    if m.dims.len() > 1 && n > 0 {
        let c = *m.dims.last().unwrap();
        let rows: Vec<Vec<T>> = t.iter_row().map(|r| r.to_vec()).collect();
        let want: Vec<Vec<T>> = m.data.chunks(c).map(|r| r.to_vec()).collect();
        if rows != want {
            return Err(format!("iter_row gave {rows:?}"));
        }
    }
    for o in 0..(2 * n + 1).min(40) {
        if n == 0 {
            break;
        }
        let k = o % n;
        if t.as_wrap_slice(o) != &m.data[k..] {
            return Err(format!("as_wrap_slice({o}) gave {:?}", t.as_wrap_slice(o)));
        }
        for l in 0..=(n - k).min(6) {
            if t.as_wrap_slice_n(o, l) != &m.data[k..k + l] {
                return Err(format!("as_wrap_slice_n({o}, {l}) gave {:?}", t.as_wrap_slice_n(o, l)));
            }
        }
        refused("as_wrap_slice_n past the end", || t.as_wrap_slice_n(o, n - k + 1).len())?;
        refused("as_wrap_slice_n huge", || t.as_wrap_slice_n(o, usize::MAX).len())?;
    }
    let fresh = Tensor::from_vec(m.data.clone(), shape(&m.dims));
    if t != &fresh || &fresh != t {
        return Err("does not compare equal to a fresh tensor".into());
    }
    if format!("{t:?}") != format!("{fresh:?}") {
        return Err(format!("prints {t:?}, a fresh one {fresh:?}"));
    }
    // windows outside are refused
    if let Some(d0) = m.dims.first() {
        for (o, l) in [(*d0, 1), (0, d0 + 1), (d0 - 1.min(*d0), 2), (d0 + 1, 1), (usize::MAX, 1), (1, usize::MAX), (usize::MAX, 2)] {
            refused(&format!("subslice({o}, {l})"), || t.subslice(o, l))?;
        }
        refused("slice(len)", || t.slice(*d0))?;
        refused("slice(max)", || t.slice(usize::MAX))?;
        if let Some(d1) = m.dims.get(1) {
            refused("slice((len, 0))", || t.slice((*d0, 0)))?;
            refused("slice((0, len))", || t.slice((0, *d1)))?;
        }
    }
    for (o, l) in [(n, 1), (0, n + 1), (n + 1, 1), (usize::MAX, 1)] {
        refused(&format!("subslice_flat({o}, {l})"), || t.subslice_flat(o, l, [l]))?;
    }
    refused("subslice_flat shape", || t.subslice_flat(0, n, [n + 1]))?;
    Ok(())
}

fn walk<T: Elem>(c: &mut Ctx, m: &M<T>, p: Prov, path: &[V]) -> R {
    let mut t = build(m, p);
    let mut cur = m.clone();
    let mut chain = vec![];
    for v in path {
        let (u, mu) = apply(&t, &cur, v)?;
        chain.push((t, cur));
        t = u;
        cur = mu;
        c.tick();
    }
    c.state(&(&cur.dims, format!("{:?}", cur.data)));
    agree(&t, &cur)?;
    for (a, b) in &chain {
        ctx_err("parent after", same(a, b))?;
    }
    // the view outlives its parents
    drop(chain);
    ctx_err("after dropping parents", same(&t, &cur))
}

fn operand(c: &mut Ctx, m: &M<i32>, p: Prov, path: &[V]) -> R {
    let mut t = build(m, p);
    let mut cur = m.clone();
    for v in path {
        (t, cur) = apply(&t, &cur, v)?;
    }
    let fresh = Tensor::from_vec(cur.data.clone(), shape(&cur.dims));
    let (a, b) = (probe_i32(&t), probe_i32(&fresh));
    c.ticks(a.len() as u64);
    for o in &a {
        c.outcome(&(o.name, o.panicked, &o.dims));
    }
    diff(&a, &b)?;
    let (tf, ff) = (t.map(|v| *v as f32), fresh.map(|v| *v as f32));
    drop(tf);
    // float view with the same window
    let mf = M::new(&m.dims, m.data.iter().map(|v| *v as f32).collect());
    let mut t = build(&mf, p);
    let mut cur = mf;
    for v in path {
        (t, cur) = apply(&t, &cur, v)?;
    }
    let (a, b) = (probe_f32(&t), probe_f32(&ff));
    c.ticks(a.len() as u64);
    diff(&a, &b)
}

fn main() {
    run("C06", |c| {
        let bases: Vec<Vec<usize>> = vec![vec![5], vec![1], vec![2, 3], vec![3, 2], vec![4, 1], vec![1, 4], vec![2, 2, 2], vec![3, 1, 2], vec![2, 1, 1, 3], vec![1, 2, 1, 2, 2], vec![2, 1, 2, 1, 1, 2]];
        for d in &bases {
            let m = M::<i32>::seq(d, 1);
            for p in ALL_PROV {
                c.case("base", || format!("{d:?} {p:?}"), |c| walk(c, &m, p, &[]));
                c.case("operand base", || format!("{d:?} {p:?}"), |c| operand(c, &m, p, &[]));
            }
            let t = build(&m, Prov::Own);
            for v1 in moves(&m, 0) {
                let Ok((t1, m1)) = apply(&t, &m, &v1) else {
                    c.case("view", || format!("{d:?} {v1:?}"), |c| walk(c, &m, Prov::Own, &[v1.clone()]));
                    continue;
                };
                drop(t1);
                for p in [Prov::Own, Prov::Nested, Prov::OuterTail] {
                    let path = vec![v1.clone()];
                    c.case("view", || format!("{d:?} {p:?} {path:?}"), |c| walk(c, &m, p, &path));
                }
                let path = vec![v1.clone()];
                c.case("operand", || format!("{d:?} {path:?}"), |c| operand(c, &m, Prov::Own, &path));
                let ms = M::<String>::seq(d, 1);
                c.case("view String", || format!("{d:?} {path:?}"), |c| walk(c, &ms, Prov::Mid, &path));
                for v2 in moves(&m1, 1) {
                    let path = vec![v1.clone(), v2.clone()];
                    c.case("view of view", || format!("{d:?} {path:?}"), |c| walk(c, &m, Prov::Own, &path));
                    if c.quick() && d.len() != 2 {
                        continue;
                    }
                    c.case("operand 2", || format!("{d:?} {path:?}"), |c| operand(c, &m, Prov::Own, &path));
                    if c.quick() {
                        continue;
                    }
                    let (_, m2) = apply(&build(&m1, Prov::Own), &m1, &v2).unwrap();
                    for v3 in moves(&m2, 2) {
                        let path = vec![v1.clone(), v2.clone(), v3];
                        c.case("view depth 3", || format!("{d:?} {path:?}"), |c| walk(c, &m, Prov::Mid, &path));
                    }
                }
            }
        }
        // long parents: windows around powers of two
        for n in lengths(c, 8) {
            let m = M::<i32>::seq(&[n], 1);
            let cuts = [0, 1, n / 2, n - 2];
            for o in cuts {
                for l in [1, 2, (n - o) / 2, n - o - 1, n - o] {
                    if l == 0 || o + l > n {
                        continue;
                    }
                    let path = vec![V::Sub(o, l)];
                    c.case("long", || format!("[{n}] {path:?}"), |c| {
                        c.tick();
                        let t = build(&m, Prov::Mid);
                        let (u, mu) = apply(&t, &m, &path[0])?;
                        same(&u, &mu)?;
                        let n = mu.data.len();
                        for i in [0, n / 2, n - 1] {
                            if u.get(i) != Some(&mu.data[i]) || u[i] != mu.data[i] {
                                return Err(format!("element {i}"));
                            }
                        }
                        if u.get(n).is_some() {
                            return Err("element past the window".into());
                        }
                        same(&u.map(|v| v + 1), &M::new(&mu.dims, mu.data.iter().map(|v| v + 1).collect()))
                    });
                }
            }
            if n <= 260 {
                let m = M::<i32>::seq(&[n, 2], 1);
                for i in [0, 1, n / 2, n - 1] {
                    c.case("long slice", || format!("[{n}, 2] {i}"), |c| walk(c, &m, Prov::Own, &[V::At(i)]));
                    c.case("long slice 2", || format!("[{n}, 2] {i}"), |c| walk(c, &m, Prov::Own, &[V::At2(i, 1)]));
                }
            }
        }
    });
}
