//! C20: transpose and tile.
use essay_tensor::array;
use essay_tensor::tensor::{scalar, Tensor};
use mc::*;

fn transposed<T: Clone>(m: &M<T>) -> M<T> {
    let r = m.dims.len();
    if r == 1 {
        return M::new(&[m.dims[0], 1], m.data.clone());
    }
    let mut d = m.dims.clone();
    d.swap(r - 1, r - 2);
    let data = indices(&d).iter().map(|i| {
        let mut i = i.clone();
        i.swap(r - 1, r - 2);
        m.data[flat(&m.dims, &i)].clone()
    }).collect();
    M::new(&d, data)
}

fn transpose<T: Elem>(c: &mut Ctx, d: &[usize], p: Prov) -> R {
    let m = M::<T>::seq(d, 1);
    let t = build(&m, p);
    c.state(&(d, p as u8));
    c.ticks(5);
    let want = transposed(&m);
    c.outcome(&want.dims);
    let r = ok("transpose", || t.transpose())?;
    ctx_err("transpose", same(&r, &want))?;
    ctx_err("t", same(&ok("t", || t.t())?, &want))?;
    ctx_err("array::transpose(&)", same(&ok("transpose", || array::transpose(&t))?, &want))?;
    ctx_err("array::transpose", same(&ok("transpose", || array::transpose(t.clone()))?, &want))?;
    let back = ok("transpose", || r.transpose())?;
    if d.len() >= 2 {
        ctx_err("transposed twice", same(&back, &m))?;
        if back != t {
            return Err("transposed twice does not compare equal".into());
        }
    } else {
        ctx_err("transposed twice", same(&back, &M::new(&[1, d[0]], m.data.clone())))?;
    }
    same(&t, &m)
}

fn tiled<T: Clone>(m: &M<T>, mult: &[usize]) -> M<T> {
    let rank = m.dims.len().max(mult.len());
    let pad = |v: &[usize]| { let mut p = vec![1; rank - v.len()]; p.extend(v); p };
    let (sd, md) = (pad(&m.dims), pad(mult));
    let d: Vec<usize> = sd.iter().zip(&md).map(|(a, b)| a * b).collect();
    let data = indices(&d).iter().map(|i| {
        let s: Vec<usize> = i.iter().zip(&sd).map(|(i, n)| i % n).collect();
        m.data[flat(&sd, &s)].clone()
    }).collect();
    M::new(&d, data)
}

fn tile<T: Elem>(c: &mut Ctx, d: &[usize], mult: &[usize], p: Prov) -> R {
    let m = M::<T>::seq(d, 1);
    let t = build(&m, p);
    let want = tiled(&m, mult);
    c.state(&(d, mult));
    c.outcome(&want.dims);
    c.ticks(4);
    let mt = Tensor::<usize>::from(mult.to_vec());
    ctx_err("tile(&Tensor)", same(&ok("tile", || t.tile(&mt))?, &want))?;
    ctx_err("tile(Vec)", same(&ok("tile", || t.tile(mult.to_vec()))?, &want))?;
    ctx_err("array::tile", same(&ok("tile", || array::tile(&t, mt.clone()))?, &want))?;
    match mult.len() {
        1 => {
            ctx_err("tile([n])", same(&ok("tile", || t.tile([mult[0]]))?, &want))?;
            if !d.is_empty() {
                ctx_err("tile(n)", same(&ok("tile", || t.tile(mult[0]))?, &want))?;
            }
        }
        2 => ctx_err("tile([n;2])", same(&ok("tile", || t.tile([mult[0], mult[1]]))?, &want))?,
        3 => ctx_err("tile([n;3])", same(&ok("tile", || array::tile(t.clone(), [mult[0], mult[1], mult[2]]))?, &want))?,
        _ => {}
    }
    let view = build(&M::new(&[mult.len()], mult.to_vec()), Prov::Mid);
    ctx_err("tile(view)", same(&ok("tile", || t.tile(&view))?, &want))?;
    same(&t, &m)
}

fn main() {
    run("C20", |c| {
        let _ = scalar(1i32);
        for d in small_shapes(c.tier, 1, 6) {
            for p in ALL_PROV {
                c.case("transpose", || format!("{d:?} {p:?}"), |c| transpose::<u32>(c, &d, p));
            }
            for p in FEW_PROV {
                c.case("transpose u8", || format!("{d:?} {p:?}"), |c| transpose::<u8>(c, &d, p));
                c.case("transpose f64", || format!("{d:?} {p:?}"), |c| transpose::<f64>(c, &d, p));
                c.case("transpose str", || format!("{d:?} {p:?}"), |c| transpose::<String>(c, &d, p));
            }
        }
        for d in long_shapes(c, 1, 6) {
            c.case("transpose long", || format!("{d:?}"), |c| transpose::<u32>(c, &d, Prov::Mid));
        }
        for n in lengths(c, 1) {
            for d in [vec![n], vec![n, 2], vec![3, n], vec![2, n, 3], vec![n, 2, 2]] {
                c.case("transpose length", || format!("{d:?}"), |c| transpose::<u32>(c, &d, Prov::Own));
            }
        }
        let cap = c.pick(3000, 30_000);
        for r in 0..=6usize {
            let set: &[usize] = match r { 0..=2 => &[1, 2, 3, 4], 3 => &[1, 2, 3], _ => &[1, 2] };
            for d in lists(r, set) {
                for k in 1..=6usize {
                    let ms: &[usize] = match k.max(r) { 1..=3 => &[1, 2, 3], 4 => c.pick(&[1, 2], &[1, 2, 3]), _ => &[1, 2] };
                    for mult in lists(k, ms) {
                        if size(&d) * size(&mult) > cap { continue; }
                        let p = ALL_PROV[(size(&d) + size(&mult)) % ALL_PROV.len()];
                        c.case("tile", || format!("{d:?} x {mult:?} {p:?}"), |c| tile::<u32>(c, &d, &mult, p));
                        if k <= 2 && r <= 3 {
                            c.case("tile str", || format!("{d:?} x {mult:?}"), |c| tile::<String>(c, &d, &mult, Prov::Mid));
                        }
                    }
                }
            }
        }
        for n in lengths(c, 1) {
            if n > 20_000 { continue; }
            for (d, mult) in [
                (vec![n], vec![2]), (vec![n], vec![3, 2]), (vec![2], vec![n]), (vec![2, 3], vec![n, 1]), (vec![2, 3], vec![1, n]),
                (vec![n, 2], vec![2, 3]), (vec![2, n], vec![2, 2]), (vec![3], vec![n, 2]), (vec![1, n], vec![2, 1]),
            ] {
                c.case("tile length", || format!("{d:?} x {mult:?}"), |c| tile::<u32>(c, &d, &mult, Prov::Own));
            }
        }
    });
}
