//! C19: splitting and unstacking.
use essay_tensor::array;
use essay_tensor::tensor::Tensor;
use mc::*;

/// The part of `m` with positions lo..hi along `axis`.
fn part<T: Clone>(m: &M<T>, axis: usize, lo: usize, hi: usize) -> M<T> {
    let mut d = m.dims.clone();
    d[axis] = hi - lo;
    let data = indices(&d).iter().map(|i| {
        let mut i = i.clone();
        i[axis] += lo;
        m.data[flat(&m.dims, &i)].clone()
    }).collect();
    M::new(&d, data)
}

fn pieces<T: Clone>(m: &M<T>, axis: usize, cuts: &[usize]) -> Vec<M<T>> {
    let mut out = Vec::new();
    let mut prev = 0;
    for cut in cuts.iter().cloned().chain([m.dims[axis]]) {
        if cut > prev {
            out.push(part(m, axis, prev, cut));
        }
        prev = cut;
    }
    out
}

fn all_same<T: Elem>(what: &str, got: &[Tensor<T>], want: &[M<T>]) -> R {
    if got.len() != want.len() {
        return Err(format!("{what}: {} pieces {:?}, expected {:?}", got.len(), got.iter().map(dims_of).collect::<Vec<_>>(), want.iter().map(|m| &m.dims).collect::<Vec<_>>()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        same(g, w).map_err(|e| format!("{what}: piece {i}: {e}"))?;
    }
    Ok(())
}

fn cuts<T: Elem>(c: &mut Ctx, d: &[usize], ax: (isize, usize), cut: &[usize], p: Prov) -> R {
    let m = M::<T>::seq(d, 1);
    let t = build(&m, p);
    let want = pieces(&m, ax.1, cut);
    c.state(&(d, ax, cut));
    c.ticks(2);
    let got = ok("split_axis", || t.split_axis(ax.0, cut))?;
    c.outcome(&got.iter().map(dims_of).collect::<Vec<_>>());
    all_same("split_axis(&[usize])", &got, &want)?;
    let back = ok("rejoin", || array::concatenate_axis(ax.0, &got[..]))?;
    ctx_err("rejoined", same(&back, &m))?;
    if back != t {
        return Err("the rejoined pieces do not compare equal to the input".into());
    }
    all_same("Vec", &t.split_axis(ax.0, cut.to_vec()), &want)?;
    all_same("&Vec", &t.split_axis(ax.0, &cut.to_vec()), &want)?;
    match cut.len() {
        0 => all_same("[;0]", &t.split_axis(ax.0, [0usize; 0]), &want)?,
        1 => all_same("[;1]", &t.split_axis(ax.0, [cut[0]]), &want)?,
        2 => all_same("[;2]", &t.split_axis(ax.0, [cut[0], cut[1]]), &want)?,
        3 => all_same("[;3]", &t.split_axis(ax.0, [cut[0], cut[1], cut[2]]), &want)?,
        _ => {}
    }
    match ax.0 {
        0 => {
            all_same("split", &t.split(cut), &want)?;
            all_same("vsplit", &t.vsplit(cut), &want)?;
            all_same("split_axis(None)", &t.split_axis(None, cut), &want)?;
        }
        1 => all_same("hsplit", &t.hsplit(cut), &want)?,
        2 => all_same("dsplit", &t.dsplit(cut), &want)?,
        _ => {}
    }
    same(&t, &m)
}

fn equal<T: Elem>(c: &mut Ctx, d: &[usize], ax: (isize, usize), n: usize, p: Prov) -> R {
    let m = M::<T>::seq(d, 1);
    let t = build(&m, p);
    let len = d[ax.1];
    c.state(&(d, ax, n));
    c.tick();
    if n == 0 || len % n != 0 {
        // there are no n equal parts
        let got = match catch(|| t.split_axis(ax.0, n)) {
            Err(_) => return same(&t, &m),
            Ok(got) => got,
        };
        return ctx_err("rejoined", same(&ok("rejoin", || array::concatenate_axis(ax.0, &got[..]))?, &m));
    }
    let k = len / n;
    let want: Vec<_> = (0..n).map(|i| part(&m, ax.1, i * k, i * k + k)).collect();
    let got = ok("split_axis", || t.split_axis(ax.0, n))?;
    all_same("split_axis(n)", &got, &want)?;
    ctx_err("rejoined", same(&ok("rejoin", || array::concatenate_axis(ax.0, &got[..]))?, &m))?;
    match ax.0 {
        0 => {
            all_same("split", &t.split(n), &want)?;
            all_same("vsplit", &t.vsplit(n), &want)?;
            all_same("split_axis(None)", &t.split_axis(None, n), &want)?;
        }
        1 => all_same("hsplit", &t.hsplit(n), &want)?,
        2 => all_same("dsplit", &t.dsplit(n), &want)?,
        _ => {}
    }
    same(&t, &m)
}

fn unstack<T: Elem>(c: &mut Ctx, d: &[usize], ax: (isize, usize), p: Prov) -> R {
    let m = M::<T>::seq(d, 1);
    let t = build(&m, p);
    c.state(&(d, ax, "unstack"));
    c.ticks(2);
    let mut rest = d.to_vec();
    rest.remove(ax.1);
    let want: Vec<_> = (0..d[ax.1]).map(|i| M::new(&rest, part(&m, ax.1, i, i + 1).data)).collect();
    let got = ok("unstack", || t.unstack(ax.0))?;
    all_same("unstack", &got, &want)?;
    let back = ok("stack", || array::stack_axis(ax.0, &got[..]))?;
    ctx_err("stacked again", same(&back, &m))?;
    if back != t {
        return Err("the stacked pieces do not compare equal to the input".into());
    }
    same(&t, &m)
}

/// Non-decreasing lists of up to k cut positions in 0..=len.
fn cut_lists(len: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for n in 0..=k {
        for l in lists(n, &(0..=len).collect::<Vec<_>>()) {
            if l.windows(2).all(|w| w[0] <= w[1]) {
                out.push(l);
            }
        }
    }
    out
}

fn main() {
    run("C19", |c| {
        for d in small_shapes(c.tier, 1, 6) {
            for ax in axes(d.len()) {
                let len = d[ax.1];
                for cut in cut_lists(len, if d.len() <= 3 { 3 } else { 2 }) {
                    let p = ALL_PROV[(size(&d) + cut.len() + ax.1) % ALL_PROV.len()];
                    c.case("cuts", || format!("{d:?} {ax:?} {cut:?} {p:?}"), |c| cuts::<u32>(c, &d, ax, &cut, p));
                }
                c.case("cuts str", || format!("{d:?} {ax:?}"), |c| cuts::<String>(c, &d, ax, &[1], Prov::Mid));
                for n in 0..=len + 2 {
                    for p in FEW_PROV {
                        c.case("equal", || format!("{d:?} {ax:?} {n} {p:?}"), |c| equal::<i32>(c, &d, ax, n, p));
                    }
                }
                for p in ALL_PROV {
                    c.case("unstack", || format!("{d:?} {ax:?} {p:?}"), |c| unstack::<u64>(c, &d, ax, p));
                }
                c.case("unstack str", || format!("{d:?} {ax:?}"), |c| unstack::<String>(c, &d, ax, Prov::OuterTail));
            }
        }
        // longer axes: every set of cuts
        for len in 1..=c.pick(7, 9) {
            for rest in [vec![], vec![2], vec![1, 2], vec![2, 1, 2]] {
                for pos in 0..=rest.len() {
                    let mut d = rest.clone();
                    d.insert(pos, len);
                    for mask in 0..1u32 << (len - 1) {
                        let cut: Vec<usize> = (1..len).filter(|i| mask >> (i - 1) & 1 == 1).collect();
                        c.case("all cuts", || format!("{d:?} {pos} {cut:?}"), |c| cuts::<u32>(c, &d, (pos as isize, pos), &cut, Prov::Mid));
                    }
                }
            }
        }
        for d in long_shapes(c, 1, 5) {
            if size(&d) > 10_000 { continue; }
            for ax in axes(d.len()).into_iter().step_by(2) {
                let n = d[ax.1];
                c.case("cuts long", || format!("{d:?} {ax:?}"), |c| cuts::<u32>(c, &d, ax, &[n / 3, n / 2, n - 1], Prov::Mid));
                for k in [1, 2, 3, 4, 5, 8, n] {
                    if n % k == 0 && k <= 300 {
                        c.case("equal long", || format!("{d:?} {ax:?} {k}"), |c| equal::<u32>(c, &d, ax, k, Prov::Own));
                    }
                }
                if n <= 64 {
                    c.case("unstack long", || format!("{d:?} {ax:?}"), |c| unstack::<u32>(c, &d, ax, Prov::Own));
                }
            }
        }
        for n in lengths(c, 1) {
            for k in 1..=c.pick(300, 1100) {
                if n % k == 0 && (n < 20_000 && k <= 12 || n <= 2100) {
                    c.case("equal length", || format!("{n} {k}"), |c| equal::<u32>(c, &[n], (0, 0), k, Prov::Tail));
                    c.case("equal length 2", || format!("{n} {k}"), |c| equal::<u32>(c, &[2, n], (1, 1), k, Prov::Tail));
                }
            }
            // every gap of cut positions, and gaps that grow
            if n <= 1100 {
                for gap in (1..=24).chain([31, 32, 33, 64, 65, 100]) {
                    if gap >= n || (c.quick() && n > 160 && gap % 5 != 1) { continue; }
                    let cut: Vec<usize> = (1..).map(|i| i * gap).take_while(|x| *x < n).collect();
                    c.case("many cuts", || format!("{n} by {gap}"), |c| cuts::<u32>(c, &[n], (0, 0), &cut, Prov::Tail));
                    c.case("many cuts 2", || format!("{n} by {gap}"), |c| cuts::<u32>(c, &[2, n], (-1, 1), &cut, Prov::Mid));
                    c.case("many cuts 3", || format!("{n} by {gap}"), |c| cuts::<u32>(c, &[n, 2], (0, 0), &cut, Prov::Own));
                }
                let cut: Vec<usize> = (1..).map(|i| i * (i + 1) / 2).take_while(|x| *x < n).collect();
                c.case("growing cuts", || format!("{n}"), |c| {
                    cuts::<u32>(c, &[n], (0, 0), &cut, Prov::Mid)?;
                    let back: Vec<usize> = cut.iter().rev().map(|x| n - x).collect();
                    cuts::<u32>(c, &[n, 2], (0, 0), &back, Prov::Mid)
                });
            }
            if n <= 1100 {
                c.case("unstack length", || format!("{n}"), |c| unstack::<u32>(c, &[n], (0, 0), Prov::Tail));
                c.case("unstack length 2", || format!("{n}"), |c| unstack::<u32>(c, &[3, n], (-1, 1), Prov::Tail));
            }
        }
    });
}
