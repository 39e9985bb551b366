//! C07: multi-index lookups.
use essay_tensor::tensor::Tensor;
use mc::*;

fn look<T: Elem>(t: &Tensor<T>, i: &[usize]) -> Result<T, String> {
    catch(|| match *i {
        [a] => t[a].clone(),
        [a, b] => t[(a, b)].clone(),
        [a, b, c] => t[(a, b, c)].clone(),
        [a, b, c, d] => t[(a, b, c, d)].clone(),
        [a, b, c, d, e] => t[(a, b, c, d, e)].clone(),
        _ => unreachable!(),
    })
}

fn lookups<T: Elem>(c: &mut Ctx, d: &[usize], p: Prov, over: usize) -> R {
    let m = M::<T>::seq(d, 1);
    let t = build(&m, p);
    let n = m.data.len();
    for i in 0..n + over {
        c.tick();
        let r = look(&t, &[i]);
        match (&r, m.data.get(i)) {
            (Ok(v), Some(w)) if v == w => {}
            (Err(_), None) => {}
            _ => return Err(format!("[{i}] of {d:?} = {r:?}")),
        }
    }
    refused("[usize::MAX]", || t[usize::MAX].clone())?;
    if d.len() < 2 || d.len() > 5 {
        return Ok(());
    }
    let wide: Vec<usize> = d.iter().map(|x| x + over).collect();
    // large shapes: every valid index, and the invalid ones with every other
    // position first or last
    let probe = if size(&wide) <= 4000 { indices(&wide) } else {
        let mut v = indices(d);
        let sets: Vec<Vec<usize>> = d.iter().map(|n| vec![0, n - 1, *n]).collect();
        for sel in lists(d.len(), &[0, 1, 2]) {
            v.push(sel.iter().zip(&sets).map(|(s, set)| set[*s]).collect());
        }
        v
    };
    for idx in probe {
        c.tick();
        let inside = idx.iter().zip(d).all(|(i, d)| i < d);
        let r = look(&t, &idx);
        c.outcome(&inside);
        match &r {
            Ok(v) if inside && *v == m.data[flat(d, &idx)] => {}
            Err(_) if !inside => {}
            _ => return Err(format!("{idx:?} of {d:?} = {r:?}")),
        }
    }
    // far out of range, with positions that would wrap to a valid one
    for k in 0..d.len() {
        for big in [usize::MAX, usize::MAX / 2 + 1, 1 << 32, (1 << 32) + 1, n, usize::MAX - d[k] + 1] {
            let mut idx = vec![0; d.len()];
            idx[k] = big;
            if big < d[k] {
                continue;
            }
            c.tick();
            if let Ok(v) = look(&t, &idx) {
                return Err(format!("{idx:?} of {d:?} returned {v:?}"));
            }
        }
    }
    c.state(&(d, p as u8));
    Ok(())
}

fn rindexed(c: &mut Ctx, d: &[usize]) -> R {
    // the initialiser's index and the lookups use the same numbering
    let t = Tensor::init_rindexed(shape(d), |i| i.iter().rev().fold(0usize, |s, v| s * 100 + v));
    for idx in indices(d) {
        c.tick();
        let want = idx.iter().fold(0, |s, v| s * 100 + v);
        let got = look(&t, &idx)?;
        if got != want {
            return Err(format!("{idx:?} of {d:?} = {got}, expected {want}"));
        }
    }
    Ok(())
}

fn main() {
    run("C07", |c| {
        for d in small_shapes(c.tier, 0, 6) {
            for p in ALL_PROV {
                c.case("i32", || format!("{d:?} {p:?}"), |c| lookups::<i32>(c, &d, p, 2));
            }
            c.case("String", || format!("{d:?}"), |c| lookups::<String>(c, &d, Prov::Mid, 1));
            c.case("tuple", || format!("{d:?}"), |c| lookups::<(u8, u64)>(c, &d, Prov::OuterTail, 1));
            if (1..=5).contains(&d.len()) {
                c.case("rindexed", || format!("{d:?}"), |c| rindexed(c, &d));
            }
        }
        // every shape with dims up to 5 (rank 3), up to 3 (rank 4 and 5)
        for (r, set) in [(2, &[1usize, 2, 3, 4, 5, 6, 7, 8][..]), (3, &[1, 2, 3, 4, 5]), (4, &[1, 2, 3]), (5, &[1, 2, 3])] {
            for d in lists(r, set) {
                c.case("grid", || format!("{d:?}"), |c| lookups::<u64>(c, &d, Prov::Own, 1));
            }
        }
        for d in long_shapes(c, 1, 5) {
            c.case("long", || format!("{d:?}"), |c| lookups::<i64>(c, &d, Prov::Mid, 1));
        }
    });
}
