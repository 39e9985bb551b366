//! C15: folds and reductions along an axis.
use essay_tensor::tensor::{Axis, FoldState, Tensor, Type};
use mc::*;

/// A value recording how it was combined: a tree in prefix form.
#[derive(Clone, Debug, PartialEq)]
struct Tree(Vec<i32>);
impl Type for Tree {}
impl Elem for Tree {
    fn nth(i: usize) -> Self { Tree(vec![i as i32]) }
    fn poison(i: usize) -> Self { Tree(vec![-1000 - i as i32]) }
}

fn join(mut a: Tree, b: Tree) -> Tree {
    a.0.push(-1);
    a.0.extend(b.0);
    a.0.push(-2);
    a
}

#[derive(Clone)]
struct St(Vec<i32>);
impl FoldState for St {
    type Out = Tree;
    fn into_result(mut self) -> Tree {
        self.0.push(-9);
        Tree(self.0)
    }
}

/// The lanes (flat positions, in order) of each output position, and the
/// output dimensions.
fn lanes(d: &[usize], axis: Option<usize>) -> (Vec<usize>, Vec<Vec<usize>>) {
    match axis {
        Some(a) if d.len() > 1 => {
            let mut od = d.to_vec();
            let n = od.remove(a);
            let v = indices(&od).iter().map(|idx| (0..n).map(|k| {
                let mut i = idx.clone();
                i.insert(a, k);
                flat(d, &i)
            }).collect()).collect();
            (od, v)
        }
        _ => (vec![], vec![(0..size(d)).collect()]),
    }
}

fn arg(axis: Option<isize>, form: u8) -> Axis {
    match (axis, form) {
        (None, 0) => Axis::default(),
        (None, _) => None.into(),
        (Some(a), 0) => Axis::axis(a),
        (Some(a), 1) => a.into(),
        (Some(a), _) => Some(a).into(),
    }
}

fn fold(c: &mut Ctx, d: &[usize], p: Prov, axis: Option<(isize, usize)>, form: u8) -> R {
    let m = M::<u32>::seq(d, 1);
    let t = build(&m, p);
    c.state(&(d, p as u8, axis));
    c.tick();
    let mut calls = 0u64;
    let got = ok("fold_axis", || t.fold_axis(arg(axis.map(|a| a.0), form), St(vec![-5]), |mut s, v| { calls += 1; s.0.push(*v as i32); s }))?;
    let (od, ls) = lanes(d, axis.map(|a| a.1));
    let want: Vec<Tree> = ls.iter().map(|l| {
        let mut v = vec![-5];
        v.extend(l.iter().map(|i| m.data[*i] as i32));
        v.push(-9);
        Tree(v)
    }).collect();
    c.outcome(&od);
    ctx_err("fold_axis", same_by(&got, &od, &want, |a, b| a == b))?;
    if calls != m.data.len() as u64 {
        return Err(format!("{calls} calls for {} elements", m.data.len()));
    }
    if axis.is_none() {
        c.tick();
        let got = ok("fold", || t.fold(St(vec![-5]), |mut s, v| { s.0.push(*v as i32); s }))?;
        ctx_err("fold", same_by(&got, &[], &want, |a, b| a == b))?;
    }
    same(&t, &m)
}

fn reduce(c: &mut Ctx, d: &[usize], p: Prov, axis: Option<(isize, usize)>, form: u8) -> R {
    let m = M::<Tree>::seq(d, 1);
    let t = build(&m, p);
    c.tick();
    let got = ok("reduce_axis", || t.reduce_axis(arg(axis.map(|a| a.0), form), join))?;
    let (od, ls) = lanes(d, axis.map(|a| a.1));
    let want: Vec<Tree> = ls.iter().map(|l| {
        let mut v = m.data[l[0]].clone();
        for i in &l[1..] {
            v = join(v, m.data[*i].clone());
        }
        v
    }).collect();
    ctx_err("reduce_axis", same_by(&got, &od, &want, |a, b| a == b))?;
    if axis.is_none() {
        c.tick();
        let got = ok("reduce", || t.reduce(join))?;
        ctx_err("reduce", same_by(&got, &[], &want, |a, b| a == b))?;
    }
    same(&t, &m)
}

/// Built-in element types and the sum/product wrappers use the same lanes.
fn ints(c: &mut Ctx, d: &[usize], p: Prov, axis: Option<(isize, usize)>) -> R {
    let m = M::<i64>::new(d, (0..size(d) as i64).map(|i| i * i * 7 + 3 * i + 1).collect());
    let t = build(&m, p);
    let a = axis.map(|a| a.0);
    let (od, ls) = lanes(d, axis.map(|a| a.1));
    c.ticks(4);
    let sums: Vec<i64> = ls.iter().map(|l| l.iter().map(|i| m.data[*i]).sum()).collect();
    ctx_err("reduce_sum_axis", same(&ok("sum", || t.reduce_sum_axis(a))?, &M::new(&od, sums.clone())))?;
    let h: Vec<i64> = ls.iter().map(|l| l.iter().fold(5i64, |s, i| s.wrapping_mul(31).wrapping_add(m.data[*i]))).collect();
    ctx_err("fold_axis i64", same(&ok("fold", || t.fold_axis(a, 5i64, |s, v| s.wrapping_mul(31).wrapping_add(*v)))?, &M::new(&od, h)))?;
    if ls[0].len() > 5000 {
        if a.is_none() {
            ctx_err("reduce_sum", same(&ok("sum", || t.reduce_sum())?, &M::new(&[], sums)))?;
        }
        return Ok(());
    }
    let two: Vec<String> = ls.iter().map(|l| l.iter().fold(String::from("s"), |s, i| format!("{s},{}", m.data[*i] % 10))).collect();
    ctx_err("fold_axis String", same(&ok("fold", || t.fold_axis(a, String::from("s"), |s, v| format!("{s},{}", v % 10)))?, &M::new(&od, two)))?;
    let sm = m.data.iter().map(|v| (v % 5) as i64 - 2).collect::<Vec<_>>();
    let ts = build(&M::new(d, sm.clone()), p);
    let prods: Vec<i64> = ls.iter().map(|l| l.iter().map(|i| if sm[*i] == 0 || l.len() > 20 { 1 } else { sm[*i] }).product()).collect();
    let tp: Tensor<i64> = ts.map(|v| if *v == 0 { 1 } else { *v });
    if ls[0].len() <= 20 {
        ctx_err("reduce_product_axis", same(&ok("product", || tp.reduce_product_axis(a))?, &M::new(&od, prods)))?;
    }
    if a.is_none() {
        ctx_err("reduce_sum", same(&ok("sum", || t.reduce_sum())?, &M::new(&[], sums)))?;
    }
    Ok(())
}

fn all(c: &mut Ctx, g: &str, d: &[usize], p: Prov) {
    let mut ax: Vec<Option<(isize, usize)>> = vec![None];
    ax.extend(axes(d.len()).into_iter().map(Some));
    for (k, a) in ax.into_iter().enumerate() {
        if size(d) > 20_000 {
            c.case(g, || format!("ints {a:?} {d:?} {p:?}"), |c| ints(c, d, p, a));
            continue;
        }
        c.case(g, || format!("fold {a:?} {d:?} {p:?}"), |c| fold(c, d, p, a, (k % 3) as u8));
        if size(d) > 0 {
            c.case(g, || format!("reduce {a:?} {d:?} {p:?}"), |c| reduce(c, d, p, a, (k % 3) as u8));
            c.case(g, || format!("ints {a:?} {d:?} {p:?}"), |c| ints(c, d, p, a));
        }
    }
}

fn main() {
    run("C15", |c| {
        let provs: Vec<Prov> = c.pick(vec![Prov::Own, Prov::Mid, Prov::OuterTail], ALL_PROV.to_vec());
        for d in small_shapes(c.tier, 0, 6) {
            for p in &provs {
                all(c, "small", &d, *p);
            }
        }
        for d in [vec![2, 3], vec![2, 3, 2], vec![5], vec![]] {
            for p in ALL_PROV {
                all(c, "provenance", &d, p);
            }
        }
        all(c, "empty", &[0], Prov::Own);
        for d in long_shapes(c, 1, 5) {
            all(c, "long", &d, Prov::Mid);
        }
        for n in lengths(c, 5) {
            for d in [vec![n], vec![n, 1], vec![1, n], vec![n, 3], vec![3, n], vec![2, n, 2]] {
                all(c, "length", &d, Prov::Own);
            }
        }
    });
}
