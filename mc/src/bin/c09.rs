//! C09: reshape, flatten, squeeze, expand.
use essay_tensor::tensor::Tensor;
use mc::*;

#[derive(Clone, Debug)]
enum E {
    Reshape(Vec<usize>),
    Flatten,
    Squeeze,
    SqueezeAxis(isize),
    Expand(isize),
}

fn target(d: &[usize], e: &E) -> Vec<usize> {
    match e {
        E::Reshape(s) => s.clone(),
        E::Flatten => vec![size(d)],
        E::Squeeze => {
            let v: Vec<usize> = d.iter().copied().filter(|x| *x != 1).collect();
            if v.is_empty() { vec![1] } else { v }
        }
        E::SqueezeAxis(a) => {
            let r = d.len() as isize;
            let k = ((a + r) % r) as usize;
            let mut v = d.to_vec();
            if v[k] == 1 {
                v.remove(k);
            }
            if v.is_empty() { vec![1] } else { v }
        }
        E::Expand(a) => {
            let k = if *a >= 0 { *a } else { d.len() as isize + a + 1 } as usize;
            let mut v = d.to_vec();
            v.insert(k, 1);
            v
        }
    }
}

fn apply<T: Elem>(t: Tensor<T>, e: &E) -> Tensor<T> {
    match e {
        E::Reshape(s) => t.reshape(shape(s)),
        E::Flatten => t.flatten(),
        E::Squeeze => t.squeeze(),
        E::SqueezeAxis(a) => t.squeeze_axis(*a),
        E::Expand(a) => t.expand_dims(*a),
    }
}

fn factors(n: usize, max_rank: usize) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    if n == 1 {
        out.push(vec![]);
    }
    fn rec(n: usize, left: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if n == 1 && !cur.is_empty() {
            out.push(cur.clone());
        }
        if left == 0 {
            return;
        }
        for a in 1..=n {
            if n % a == 0 && (a > 1 || cur.iter().filter(|x| **x == 1).count() < 2) {
                cur.push(a);
                rec(n / a, left - 1, cur, out);
                cur.pop();
            }
        }
    }
    rec(n, max_rank, &mut vec![], &mut out);
    out
}

fn edits(d: &[usize], quick: bool) -> Vec<E> {
    let mut v: Vec<E> = factors(size(d), if quick { 3 } else { 4 }).into_iter().map(E::Reshape).collect();
    v.push(E::Flatten);
    v.push(E::Squeeze);
    for (a, _) in axes(d.len()) {
        v.push(E::SqueezeAxis(a));
    }
    if d.len() < 6 {
        for k in 0..=d.len() as isize {
            v.push(E::Expand(k));
            v.push(E::Expand(-k - 1));
        }
    }
    v
}

fn chain<T: Elem>(c: &mut Ctx, d: &[usize], p: Prov, path: &[E]) -> R {
    let m = M::<T>::seq(d, 1);
    let t0 = build(&m, p);
    let ptr = t0.as_slice().as_ptr();
    let mut t = t0.clone();
    let mut cur = d.to_vec();
    for e in path {
        c.tick();
        let next = target(&cur, e);
        t = ok(&format!("{e:?} of {cur:?}"), || apply(t, e))?;
        cur = next;
        ctx_err(&format!("{e:?}"), same(&t, &M::new(&cur, m.data.clone())))?;
        if t.as_slice().as_ptr() != ptr && std::mem::size_of::<T>() > 0 {
            return Err(format!("{e:?} copied the elements"));
        }
        for (k, x) in cur.iter().enumerate() {
            if t.dim(k) != *x || t.rdim(cur.len() - 1 - k) != *x {
                return Err(format!("{e:?}: dim({k})"));
            }
        }
    }
    c.state(&(d, &cur));
    ctx_err("source", same(&t0, &m))?;
    let back = ok("reshape back", || t.reshape(shape(d)))?;
    ctx_err("back", same(&back, &m))?;
    if back != t0 || t0 != back {
        return Err("reshaping back does not compare equal".into());
    }
    Ok(())
}

fn bad<T: Elem>(c: &mut Ctx, d: &[usize], p: Prov) -> R {
    let m = M::<T>::seq(d, 1);
    let t = build(&m, p);
    let n = m.data.len();
    for s in [vec![n + 1], vec![n.saturating_sub(1)], vec![n, 2], vec![2 * n], vec![n + 1, 1], vec![1 << 16, 1 << 16, n], vec![1 << 31, 1 << 31, 1 << 31, n], vec![u32::MAX as usize, n + 7], vec![0]] {
        if s.iter().try_fold(1usize, |a, b| a.checked_mul(*b)) == Some(n) {
            continue;
        }
        c.tick();
        refused(&format!("reshape {d:?} to {s:?}"), || t.clone().reshape(s.as_slice()))?;
    }
    same(&t, &m)
}

fn main() {
    run("C09", |c| {
        let base: Vec<Vec<usize>> = {
            let mut v = small_shapes(c.tier, 0, 4);
            v.retain(|d| size(d) <= c.pick(24, 60));
            for r in 5..=6 {
                v.extend(lists(r, &[1, 2]));
            }
            v
        };
        let quick = c.quick();
        for d in &base {
            for p in ALL_PROV {
                c.case("bad", || format!("{d:?} {p:?}"), |c| bad::<i32>(c, d, p));
            }
            for e in edits(d, quick) {
                for p in ALL_PROV {
                    c.case("one", || format!("{d:?} {p:?} {e:?}"), |c| chain::<i32>(c, d, p, &[e.clone()]));
                }
                c.case("one String", || format!("{d:?} {e:?}"), |c| chain::<String>(c, d, Prov::Mid, &[e.clone()]));
                if size(d) > c.pick(8, 16) && d.len() > 2 {
                    continue;
                }
                let d1 = target(d, &e);
                for e2 in edits(&d1, true) {
                    let path = [e.clone(), e2.clone()];
                    c.case("two", || format!("{d:?} {path:?}"), |c| chain::<i32>(c, d, Prov::Mid, &path));
                    if size(d) <= c.pick(2, 4) {
                        let d2 = target(&d1, &e2);
                        for e3 in edits(&d2, true) {
                            let path = [e.clone(), e2.clone(), e3];
                            c.case("three", || format!("{d:?} {path:?}"), |c| chain::<i32>(c, d, Prov::Own, &path));
                        }
                    }
                }
            }
        }
        for n in lengths(c, 1) {
            for e in [E::Reshape(vec![n, 1]), E::Reshape(vec![1, n]), E::Reshape(vec![1, 1, n]), E::Flatten, E::Squeeze, E::Expand(0), E::Expand(1), E::Expand(-1)] {
                c.case("long", || format!("[{n}] {e:?}"), |c| chain::<i32>(c, &[n], Prov::Mid, &[e.clone()]));
            }
            if n % 2 == 0 {
                c.case("long halves", || format!("[{n}]"), |c| chain::<i32>(c, &[n], Prov::Own, &[E::Reshape(vec![2, n / 2]), E::Reshape(vec![n / 2, 2]), E::Flatten]));
            }
            if n > 0 && n < 5000 {
                c.case("long bad", || format!("[{n}]"), |c| bad::<i32>(c, &[n], Prov::Own));
            }
        }
        for d in long_shapes(c, 2, 6) {
            for e in [E::Flatten, E::Squeeze, E::SqueezeAxis(0), E::SqueezeAxis(-1)] {
                c.case("long shapes", || format!("{d:?} {e:?}"), |c| chain::<i32>(c, &d, Prov::Own, &[e.clone()]));
            }
            if d.len() < 6 {
                for k in 0..=d.len() as isize {
                    c.case("long expand", || format!("{d:?} {k}"), |c| chain::<i32>(c, &d, Prov::Mid, &[E::Expand(k), E::Squeeze]));
                }
            }
        }
    });
}
