//! C14: row maps, expanding maps and row folds.
use essay_tensor::tensor::{Axis, FoldState, Tensor, Type};
use mc::*;

/// Everything a row fold was given.
#[derive(Clone, Debug, PartialEq)]
struct Log(Vec<u32>);
impl Type for Log {}

#[derive(Clone)]
struct Rows<const N: usize> {
    start: u32,
    rows: Vec<u32>,
}

impl<const N: usize> FoldState for Rows<N> {
    type Out = [Log; N];
    fn into_result(self) -> [Log; N] {
        std::array::from_fn(|i| {
            let mut v = vec![self.start, i as u32];
            v.extend(&self.rows);
            Log(v)
        })
    }
}

fn seq(d: &[usize]) -> M<u32> {
    M::seq(d, 1)
}

fn map_row<const N: usize>(c: &mut Ctx, d: &[usize], p: Prov) -> R {
    let m = seq(d);
    let t = build(&m, p);
    let cols = *d.last().unwrap();
    c.state(&(d, p as u8, N));
    c.tick();
    let mut seen: Vec<Vec<u32>> = Vec::new();
    let r = ok("map_row", || t.map_row::<N, (u32, u32)>(|row| {
        seen.push(row.to_vec());
        let k = seen.len() as u32;
        std::array::from_fn(|i| (k, i as u32))
    }))?;
    let want: Vec<Vec<u32>> = m.data.chunks(cols).map(|r| r.to_vec()).collect();
    if seen != want {
        return Err(format!("rows passed: {seen:?}, expected {want:?}"));
    }
    let mut od = d.to_vec();
    if N == 1 && d.len() > 1 {
        od.pop();
    } else {
        *od.last_mut().unwrap() = N;
    }
    let mut data = Vec::new();
    for k in 1..=want.len() as u32 {
        data.extend((0..N).map(|i| (k, i as u32)));
    }
    c.outcome(&od);
    same_by(&r, &od, &data, |a, b| a == b)?;
    same(&t, &m)
}

/// The content of the results is that of the rows (strings own memory).
fn map_row_vals(c: &mut Ctx, d: &[usize], p: Prov) -> R {
    let m = M::<String>::seq(d, 1);
    let t = build(&m, p);
    let cols = *d.last().unwrap();
    c.tick();
    let r = ok("map_row", || t.map_row::<2, String>(|row| [row[0].clone(), row.join("+")]))?;
    let mut od = d.to_vec();
    *od.last_mut().unwrap() = 2;
    let want: Vec<String> = m.data.chunks(cols).flat_map(|r| [r[0].clone(), r.join("+")]).collect();
    same(&r, &M::new(&od, want))
}

fn map_expand<const N: usize>(c: &mut Ctx, d: &[usize], p: Prov) -> R {
    let m = seq(d);
    let t = build(&m, p);
    c.state(&(d, p as u8, N, "x"));
    c.tick();
    let mut seen = Vec::new();
    let r = ok("map_expand", || t.map_expand::<N, (u32, u32)>(|v| {
        seen.push(*v);
        std::array::from_fn(|i| (*v, i as u32))
    }))?;
    if seen != m.data {
        return Err(format!("elements passed: {seen:?}"));
    }
    let mut od = d.to_vec();
    od.push(N);
    let data: Vec<(u32, u32)> = m.data.iter().flat_map(|v| (0..N).map(move |i| (*v, i as u32))).collect();
    c.outcome(&od);
    same_by(&r, &od, &data, |a, b| a == b)
}

fn fold_row<const N: usize>(c: &mut Ctx, d: &[usize], p: Prov, axis: Option<(isize, usize)>, form: u8) -> R {
    let m = seq(d);
    let t = build(&m, p);
    let r = d.len();
    let cols = d[r - 1];
    c.state(&(d, p as u8, N, axis));
    c.tick();
    let init = Rows::<N> { start: 77, rows: vec![] };
    let f = |mut s: Rows<N>, row: &[u32]| {
        s.rows.push(row.len() as u32);
        s.rows.extend(row);
        s
    };
    let got: Tensor<Log> = ok("fold_row", || match (axis, form) {
        (None, 0) => t.fold_row(None, init.clone(), f),
        (None, _) => t.fold_row(Axis::default(), init.clone(), f),
        (Some((a, _)), 0) => t.fold_row(a, init.clone(), f),
        (Some((a, _)), 1) => t.fold_row(Some(a), init.clone(), f),
        (Some((a, _)), _) => t.fold_row(Axis::axis(a), init.clone(), f),
    })?;
    // groups of rows by remaining position
    let (od, groups): (Vec<usize>, Vec<Vec<usize>>) = match axis {
        None => (vec![N], vec![(0..m.data.len() / cols).collect()]),
        Some(_) if r == 1 => (vec![N], vec![vec![0]]),
        Some((_, a)) => {
            let outer = &d[..r - 1];
            let mut rest = outer.to_vec();
            rest.remove(a);
            let groups = indices(&rest).iter().map(|idx| (0..d[a]).map(|k| {
                let mut i = idx.clone();
                i.insert(a, k);
                flat(outer, &i)
            }).collect()).collect();
            rest.push(N);
            (rest, groups)
        }
    };
    let mut want = Vec::new();
    for g in &groups {
        for i in 0..N {
            let mut v = vec![77, i as u32];
            for row in g {
                v.push(cols as u32);
                v.extend(&m.data[row * cols..(row + 1) * cols]);
            }
            want.push(Log(v));
        }
    }
    c.outcome(&od);
    same_by(&got, &od, &want, |a, b| a == b)?;
    same(&t, &m)
}

fn row_axes(rank: usize) -> Vec<Option<(isize, usize)>> {
    let mut v = vec![None];
    if rank == 1 {
        v.extend([Some((0, 0)), Some((-1, 0))]);
    }
    for a in 0..rank.saturating_sub(1) {
        v.push(Some((a as isize, a)));
        v.push(Some((a as isize - rank as isize, a)));
    }
    v
}

fn all(c: &mut Ctx, g: &str, d: &[usize], p: Prov) {
    c.case(g, || format!("map_row 1 {d:?} {p:?}"), |c| map_row::<1>(c, d, p));
    c.case(g, || format!("map_row 2 {d:?} {p:?}"), |c| map_row::<2>(c, d, p));
    c.case(g, || format!("map_row 3 {d:?} {p:?}"), |c| map_row::<3>(c, d, p));
    c.case(g, || format!("map_row 7 {d:?} {p:?}"), |c| map_row::<7>(c, d, p));
    c.case(g, || format!("map_row strings {d:?} {p:?}"), |c| map_row_vals(c, d, p));
    if d.len() < 6 {
        c.case(g, || format!("map_expand 1 {d:?} {p:?}"), |c| map_expand::<1>(c, d, p));
        c.case(g, || format!("map_expand 2 {d:?} {p:?}"), |c| map_expand::<2>(c, d, p));
        c.case(g, || format!("map_expand 5 {d:?} {p:?}"), |c| map_expand::<5>(c, d, p));
    }
    for ax in row_axes(d.len()) {
        c.case(g, || format!("fold_row 1 {ax:?} {d:?} {p:?}"), |c| fold_row::<1>(c, d, p, ax, 0));
        c.case(g, || format!("fold_row 2 {ax:?} {d:?} {p:?}"), |c| fold_row::<2>(c, d, p, ax, 1));
        c.case(g, || format!("fold_row 3 {ax:?} {d:?} {p:?}"), |c| fold_row::<3>(c, d, p, ax, 2));
    }
}

fn main() {
    run("C14", |c| {
        c.case("expand", || "scalar".into(), |c| map_expand::<3>(c, &[], Prov::Own));
        c.case("expand", || "scalar view".into(), |c| map_expand::<2>(c, &[], Prov::Mid));
        let provs: Vec<Prov> = c.pick(vec![Prov::Own, Prov::Mid, Prov::OuterTail, Prov::Nested], ALL_PROV.to_vec());
        for d in small_shapes(c.tier, 1, 6) {
            for p in &provs {
                all(c, "small", &d, *p);
            }
        }
        for d in [vec![2, 3], vec![2, 3, 2], vec![5]] {
            for p in ALL_PROV {
                all(c, "provenance", &d, p);
            }
        }
        for d in long_shapes(c, 1, 5) {
            all(c, "long", &d, Prov::Own);
        }
        // results of many columns
        macro_rules! wide { ($($n:literal)*) => { $(
            for d in [vec![1], vec![2], vec![3], vec![9], vec![33], vec![2, 3], vec![3, 2], vec![1, 4], vec![4, 1], vec![2, 3, 2], vec![2, 2, 2, 2], vec![17, 5]] {
                for p in [Prov::Own, Prov::Mid] {
                    c.case("wide", || format!("map_row {} {d:?} {p:?}", $n), |c| map_row::<$n>(c, &d, p));
                    c.case("wide", || format!("map_expand {} {d:?} {p:?}", $n), |c| map_expand::<$n>(c, &d, p));
                    for ax in row_axes(d.len()) {
                        c.case("wide", || format!("fold_row {} {ax:?} {d:?} {p:?}", $n), |c| fold_row::<$n>(c, &d, p, ax, 0));
                    }
                }
            }
        )* } }
        wide!(4 5 6 7 8 9 10 11 12 13 15 16 17 18 20 24 25 31 32 33 40 63 64 65 100 127 128 129 255 256 257);
        for n in lengths(c, 5) {
            if n > 5000 {
                continue;
            }
            for d in [vec![n], vec![n, 1], vec![n, 3], vec![2, n, 2]] {
                for p in [Prov::Own, Prov::Mid] {
                    c.case("length", || format!("map_row 2 {d:?} {p:?}"), |c| map_row::<2>(c, &d, p));
                    c.case("length", || format!("map_row 1 {d:?} {p:?}"), |c| map_row::<1>(c, &d, p));
                    c.case("length", || format!("map_expand 3 {d:?} {p:?}"), |c| map_expand::<3>(c, &d, p));
                    for ax in row_axes(d.len()) {
                        c.case("length", || format!("fold_row {ax:?} {d:?} {p:?}"), |c| fold_row::<2>(c, &d, p, ax, 0));
                    }
                }
            }
        }
    });
}
