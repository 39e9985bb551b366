//! C08: shapes against the plain list of dimensions.
use essay_tensor::tensor::{Axis, Shape, Tensor};
use mc::*;

/// All read-only questions about a shape.
fn inspect(s: &Shape, d: &[usize]) -> R {
    let r = d.len();
    let eq = |what: String, a: usize, b: usize| if a == b { Ok(()) } else { Err(format!("{what} of {d:?} = {a}, expected {b}")) };
    if s.as_vec() != d {
        return Err(format!("as_vec = {:?}, expected {d:?}", s.as_vec()));
    }
    eq("rank".into(), s.rank(), r)?;
    eq("size".into(), s.size(), size(d))?;
    for i in 0..r {
        eq(format!("dim({i})"), s.dim(i), d[i])?;
        eq(format!("rdim({i})"), s.rdim(i), d[r - 1 - i])?;
        eq(format!("idim({i})"), s.idim(i as isize), d[i])?;
        eq(format!("idim({})", i as isize - r as isize), s.idim(i as isize - r as isize), d[i])?;
    }
    refused("dim(rank)", || s.dim(r))?;
    if r > 0 {
        eq("len".into(), s.len(), d[0])?;
        eq("cols".into(), s.cols(), d[r - 1])?;
    } else {
        eq("cols".into(), s.cols(), 0)?;
    }
    eq("rows".into(), s.rows(), if r > 1 { d[r - 2] } else { 0 })?;
    for i in 0..=r {
        for j in i..=r {
            eq(format!("sublen({i}, {j})"), s.sublen(i, j), size(&d[i..j]))?;
            eq(format!("rsublen({i}, {j})"), s.rsublen(i, j), size(&d[r - j..r - i]))?;
        }
    }
    refused("sublen past the rank", || s.sublen(0, r + 1))?;
    for b in 0..=7 {
        eq(format!("batch_len({b})"), s.batch_len(b), if b < r { size(&d[..r - b]) } else { 1 })?;
    }
    // equal exactly to a shape with the same list
    let fresh = Shape::from(d);
    if s != &fresh || &fresh != s {
        return Err(format!("{s:?} is not equal to a fresh shape {d:?}"));
    }
    let same = s.clone();
    if &same != s || &Shape::from(s) != s {
        return Err("clone differs".into());
    }
    for i in 0..r {
        let mut e = d.to_vec();
        if e[i] >= u32::MAX as usize { e[i] -= 1; } else { e[i] += 1; }
        if s == &Shape::from(e.as_slice()) {
            return Err(format!("{d:?} equals {e:?}"));
        }
    }
    if r < 6 {
        for e in [[d, &[1]].concat(), [&[1], d].concat(), [&[0], d].concat()] {
            if s == &Shape::from(e.as_slice()) {
                return Err(format!("{d:?} equals {e:?}"));
            }
        }
    }
    if r > 0 && (s == &Shape::from(&d[1..]) || s == &Shape::from(&d[..r - 1])) {
        return Err(format!("{d:?} equals a shorter shape"));
    }
    // axis reductions
    if r > 0 {
        for (a, k) in axes(r) {
            eq(format!("axis_from_rank({a})"), Axis::axis(a).axis_from_rank(r), k)?;
            let (os, outer, len, inner) = Axis::axis(a).reduce(s);
            let mut e = d.to_vec();
            e.remove(k);
            if os.as_vec() != e || os != Shape::from(e.as_slice()) {
                return Err(format!("axis {a} of {d:?} reduces to {os:?}"));
            }
            let want = (size(&d[..k]), d[k], size(&d[k + 1..]));
            if (outer, len, inner) != want {
                return Err(format!("axis {a} of {d:?} gives {:?}, expected {want:?}", (outer, len, inner)));
            }
        }
    }
    let (os, outer, len, inner) = Axis::default().reduce(s);
    if os.rank() != 0 || (outer, len, inner) != (1, size(d), 1) {
        return Err("no axis".into());
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum E {
    WithDim(usize, usize),
    Replace(usize, usize),
    RReplace(usize, usize),
    WithCols(usize),
    WithRows(usize),
    Push(usize),
    Pop,
    Remove(usize),
    RRemove(usize),
    Insert(usize, usize),
    RInsert(usize, usize),
    Expand(isize),
    Squeeze,
    SqueezeAxis(isize),
    Reduce,
    Append1(usize),
    AppendN(usize, usize, usize),
}

fn edit_list(d: &[usize], e: &E) -> Option<Vec<usize>> {
    let r = d.len();
    let mut v = d.to_vec();
    match *e {
        E::WithDim(i, x) | E::Replace(i, x) => *v.get_mut(i)? = x,
        E::RReplace(i, x) => {
            if i >= r {
                return None;
            }
            v[r - 1 - i] = x;
        }
        E::WithCols(x) => *v.last_mut()? = x,
        E::WithRows(x) => {
            if r < 2 {
                return None;
            }
            v[r - 2] = x;
        }
        E::Push(x) | E::Append1(x) => {
            if r == 6 {
                return None;
            }
            v.insert(0, x);
        }
        E::AppendN(n, x, y) => {
            if r + n > 6 {
                return None;
            }
            for k in 0..n {
                v.insert(0, if k == 0 { x } else { y });
            }
        }
        E::Pop => {
            if r == 0 {
                return None;
            }
            v.remove(0);
        }
        E::Remove(i) => {
            if i >= r {
                return None;
            }
            v.remove(i);
        }
        E::RRemove(i) => {
            if i >= r {
                return None;
            }
            v.remove(r - 1 - i);
        }
        E::Insert(i, x) => {
            if i > r || r == 6 {
                return None;
            }
            v.insert(i, x);
        }
        E::RInsert(i, x) => {
            if i > r || r == 6 {
                return None;
            }
            v.insert(r - i, x);
        }
        E::Expand(a) => {
            let k = if a >= 0 { a } else { r as isize + a + 1 };
            if k < 0 || k as usize > r || r == 6 {
                return None;
            }
            v.insert(k as usize, 1);
        }
        E::Squeeze => {
            v.retain(|x| *x != 1);
            if v.is_empty() {
                v.push(1);
            }
        }
        E::SqueezeAxis(a) => {
            let k = ((a + r as isize) % r as isize) as usize;
            if v[k] == 1 {
                v.remove(k);
            }
            if v.is_empty() {
                v.push(1);
            }
        }
        E::Reduce => {
            if r > 1 {
                v.pop();
            } else {
                v[0] = 1;
            }
        }
    }
    Some(v)
}

fn edit_shape(s: Shape, e: &E) -> Shape {
    match *e {
        E::WithDim(i, x) => s.with_dim(i, x),
        E::Replace(i, x) => s.replace(i, x),
        E::RReplace(i, x) => s.rreplace(i, x),
        E::WithCols(x) => s.with_cols(x),
        E::WithRows(x) => s.with_rows(x),
        E::Push(x) => s.push(x),
        E::Append1(x) => s.append(&[x]),
        E::AppendN(n, x, y) => s.append(&[x, y, y, y, y, y, y][..n]),
        E::Pop => s.pop(),
        E::Remove(i) => s.remove(i),
        E::RRemove(i) => s.rremove(i),
        E::Insert(i, x) => s.insert(i, x),
        E::RInsert(i, x) => s.rinsert(i, x),
        E::Expand(a) => s.expand_dims(a),
        E::Squeeze => s.squeeze(None),
        E::SqueezeAxis(a) => s.squeeze(a),
        E::Reduce => s.reduce(),
    }
}

fn edits(d: &[usize], vals: &[usize]) -> Vec<E> {
    let r = d.len();
    let mut v = Vec::new();
    for &x in vals {
        for i in 0..=r + 1 {
            v.extend([E::WithDim(i, x), E::Replace(i, x), E::RReplace(i, x), E::Insert(i, x), E::RInsert(i, x)]);
        }
        v.push(E::Push(x));
        v.push(E::Append1(x));
        v.push(E::AppendN(2, x, x + 1));
        if r > 0 {
            v.push(E::WithCols(x));
        }
        v.push(E::WithRows(x));
    }
    for i in 0..=r + 1 {
        v.extend([E::Remove(i), E::RRemove(i)]);
    }
    for a in -(r as isize) - 2..=r as isize + 1 {
        v.push(E::Expand(a));
    }
    if r > 0 {
        v.push(E::Pop);
        for n in [0, 2, 3, 6] {
            v.push(E::AppendN(n, 3, 2));
        }
        v.push(E::Squeeze);
        v.push(E::Reduce);
        for (a, _) in axes(r) {
            v.push(E::SqueezeAxis(a));
        }
    }
    v
}

fn sequence(c: &mut Ctx, d: &[usize], path: &[E]) -> R {
    let mut s = Shape::from(d);
    let mut v = d.to_vec();
    for e in path {
        c.tick();
        match edit_list(&v, e) {
            None => return refused(&format!("{e:?} of {v:?}"), || edit_shape(s.clone(), e)),
            Some(w) => {
                s = ok(&format!("{e:?} of {v:?}"), || edit_shape(s.clone(), e))?;
                v = w;
            }
        }
    }
    c.state(&v);
    inspect(&s, &v)
}

fn pairs(c: &mut Ctx, a: &[usize], b: &[usize]) -> R {
    let (s, t) = (Shape::from(a), Shape::from(b));
    c.ticks(4);
    if (s == t) != (a == b) {
        return Err("equality".into());
    }
    let compat = a.iter().rev().zip(b.iter().rev()).all(|(x, y)| x == y);
    if compat {
        let big = if b.len() > a.len() { b } else { a };
        ok("check_broadcast", || s.check_broadcast(&t))?;
        if ok("broadcast", || s.broadcast(&t))? != size(big) {
            return Err("broadcast size".into());
        }
        let o = ok("broadcast_to", || s.broadcast_to(&t))?;
        if o.as_vec() != big || o != Shape::from(big) {
            return Err(format!("broadcast_to gave {o:?}"));
        }
    } else {
        refused("check_broadcast", || s.check_broadcast(&t))?;
        refused("broadcast", || s.broadcast(&t))?;
        refused("broadcast_to", || s.broadcast_to(&t))?;
    }
    for am in 0..=a.len() {
        for bm in 0..=b.len() {
            c.tick();
            let (x, y) = (&a[..a.len() - am], &b[..b.len() - bm]);
            let compat = x.iter().rev().zip(y.iter().rev()).all(|(p, q)| p == q);
            let what = format!("broadcast_min({am}, {bm})");
            if compat {
                let want = size(if x.len() < y.len() { y } else { x });
                let got = ok(&what, || s.broadcast_min(am, &t, bm))?;
                if got != want {
                    return Err(format!("{what} = {got}, expected {want}"));
                }
            } else {
                refused(&what, || s.broadcast_min(am, &t, bm))?;
            }
        }
    }
    Ok(())
}

fn sources(c: &mut Ctx, d: &[usize]) -> R {
    let want = Shape::from(d);
    let mut all = vec![("&Shape", Shape::from(&want))];
    if d.iter().all(|x| *x > 0) {
        all.push(("Vec", Shape::from(d.to_vec())));
    }
    all.push(match *d {
        [] => ("[;0]", Shape::from([])),
        [a] => ("[;1]", Shape::from([a])),
        [a, b] => ("[;2]", Shape::from([a, b])),
        [a, b, c] => ("[;3]", Shape::from([a, b, c])),
        [a, b, c, d] => ("[;4]", Shape::from([a, b, c, d])),
        [a, b, c, d, e] => ("[;5]", Shape::from([a, b, c, d, e])),
        [a, b, c, d, e, f] => ("[;6]", Shape::from([a, b, c, d, e, f])),
        _ => unreachable!(),
    });
    match *d {
        [] => all.push(("scalar", Shape::scalar())),
        [a] => {
            all.push(("usize", Shape::from(a)));
            all.push(("vector", Shape::vector(a)));
        }
        _ => {}
    }
    let mut p = Shape::scalar();
    for x in d.iter().rev() {
        p = p.push(*x);
    }
    all.push(("pushes", p));
    let mut p = Shape::scalar();
    for x in d {
        p = p.rinsert(0, *x);
    }
    all.push(("rinserts", p));
    let mut p = Shape::scalar();
    for x in d.iter().rev() {
        p = p.insert(0, *x);
    }
    all.push(("inserts", p));
    for (what, s) in &all {
        c.tick();
        ctx_err(what, inspect(s, d))?;
        for (w2, t) in &all {
            if s != t {
                return Err(format!("{what} != {w2} for {d:?}"));
            }
        }
    }
    // a tensor reports what its shape reports
    let n = size(d);
    if n <= 4096 {
        let t = Tensor::from_vec(vec![7u8; n], &want);
        inspect(t.shape(), d)?;
        if t.rank() != d.len() || t.size() != n || t.cols() != want.cols() || t.rows() != want.rows() {
            return Err("tensor sizes".into());
        }
        for i in 0..d.len() {
            if t.dim(i) != d[i] || t.rdim(i) != d[d.len() - 1 - i] || t.len() != d[0] {
                return Err("tensor dims".into());
            }
        }
    }
    Ok(())
}

fn appends(c: &mut Ctx, d: &[usize], tail: &[usize]) -> R {
    c.tick();
    let s = Shape::from(d);
    if d.len() + tail.len() > 6 {
        return refused("append", || s.append(tail));
    }
    let o = ok("append", || s.append(tail))?;
    if o.rank() != d.len() + tail.len() || o.size() != size(d) * size(tail) {
        return Err(format!("append {tail:?} to {d:?} gave {o:?}"));
    }
    let mut a = o.as_vec();
    let mut b = [d, tail].concat();
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("append {tail:?} to {d:?} gave {o:?}"));
    }
    Ok(())
}

fn too_large(c: &mut Ctx, d: &[usize], big: usize) -> R {
    c.tick();
    let s = Shape::from(d);
    refused("push", || s.push(big))?;
    refused("from usize", || Shape::from(big))?;
    refused("vector", || Shape::vector(big))?;
    refused("append", || s.append(&[big]))?;
    refused("from vec", || Shape::from(vec![big]))?;
    refused("from array", || Shape::from([2, big]))?;
    refused("from slice", || Shape::from(&[big, 2][..]))?;
    refused("insert", || s.clone().insert(0, big))?;
    refused("rinsert", || s.clone().rinsert(0, big))?;
    if !d.is_empty() {
        refused("replace", || s.clone().replace(0, big))?;
        refused("rreplace", || s.clone().rreplace(0, big))?;
        refused("with_dim", || s.clone().with_dim(0, big))?;
        refused("with_cols", || s.clone().with_cols(big))?;
    }
    if d.len() > 1 {
        refused("with_rows", || s.clone().with_rows(big))?;
    }
    Ok(())
}

fn main() {
    run("C08", |c| {
        let sets: [&[usize]; 7] = [&[1], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 255, 256, 65536, 1 << 31, u32::MAX as usize], &[1, 2, 3, 4, 7, 300], &[1, 2, 3, 5], &[1, 2, 3, 5], &[1, 2, 3], &[1, 2, 3]];
        let mut all = Vec::new();
        for r in 0..=6 {
            all.extend(lists(r, sets[r]));
        }
        // sizes that only fit in more than 32 bits
        all.push(vec![65536, 65536]);
        all.push(vec![1 << 20, 3, 1 << 20]);
        all.push(vec![u32::MAX as usize, u32::MAX as usize]);
        all.push(vec![1 << 10, 1 << 10, 1 << 10, 1 << 10, 1 << 10, 1 << 10]);
        for d in &all {
            c.case("inspect", || format!("{d:?}"), |c| {
                c.tick();
                inspect(&Shape::from(d.as_slice()), d)
            });
            c.case("sources", || format!("{d:?}"), |c| sources(c, d));
            if d.iter().all(|x| *x < 1000) {
                for e in edits(d, &[1, 2, 7]) {
                    c.case("edit", || format!("{d:?} {e:?}"), |c| sequence(c, d, &[e.clone()]));
                }
                for tail in [vec![], vec![2], vec![1], vec![2, 3], vec![3, 1, 2], vec![2, 2, 2, 2, 2, 2]] {
                    c.case("append", || format!("{d:?} {tail:?}"), |c| appends(c, d, &tail));
                }
            }
        }
        // overflowing sizes are refused
        for d in [vec![1 << 31, 1 << 31, 4], vec![1 << 31, 1 << 31, 8], vec![1 << 16; 4], vec![1 << 16; 5], vec![1 << 31; 6], vec![u32::MAX as usize; 3]] {
            c.case("size overflow", || format!("{d:?}"), |c| {
                c.tick();
                let s = Shape::from(d.as_slice());
                refused("size", || s.size())
            });
        }
        for d in [vec![], vec![3], vec![2, 3], vec![2, 3, 4]] {
            for big in [1usize << 32, (1 << 32) + 1, (1 << 32) + 5, 1 << 33, 1 << 48, usize::MAX, usize::MAX - 1] {
                c.case("dim overflow", || format!("{d:?} {big}"), |c| too_large(c, &d, big));
            }
        }
        for r in 7..=9 {
            c.case("rank overflow", || format!("{r}"), |c| {
                c.tick();
                refused("from slice", || Shape::from(&vec![1; r][..]))?;
                refused("from vec", || Shape::from(vec![1; r]))?;
                refused("from array", || Shape::from([1, 1, 1, 1, 1, 1, 1]))
            });
        }
        // edit sequences
        let starts: Vec<Vec<usize>> = c.pick(
            vec![vec![], vec![1], vec![3], vec![2, 3], vec![1, 3], vec![3, 1, 2], vec![2, 3, 1, 5], vec![1, 2, 1, 3, 1], vec![2, 3, 4, 5, 6, 7]],
            vec![vec![], vec![1], vec![3], vec![2, 3], vec![1, 3], vec![3, 1], vec![1, 1], vec![3, 1, 2], vec![2, 3, 4], vec![2, 3, 1, 5], vec![1, 2, 1, 3, 1], vec![2, 3, 4, 5, 6], vec![2, 3, 4, 5, 6, 7], vec![1, 1, 2, 1, 1, 3]],
        );
        let deep = c.pick(60, 10_000);
        for d in &starts {
            for e1 in edits(d, &[1, 4]) {
                let Some(d1) = edit_list(d, &e1) else { continue };
                for e2 in edits(&d1, &[1, 4]) {
                    let path = [e1.clone(), e2.clone()];
                    c.case("edit 2", || format!("{d:?} {path:?}"), |c| sequence(c, d, &path));
                    let Some(d2) = edit_list(&d1, &e2) else { continue };
                    if d2.iter().product::<usize>() > deep || (c.quick() && d2.len() > 3) {
                        continue;
                    }
                    for e3 in edits(&d2, &[4]) {
                        let path = [e1.clone(), e2.clone(), e3];
                        c.case("edit 3", || format!("{d:?} {path:?}"), |c| sequence(c, d, &path));
                    }
                }
            }
        }
        // pairs
        let mut set = Vec::new();
        for (r, v) in [(0, &[1][..]), (1, &[1, 2, 3]), (2, &[1, 2, 3]), (3, &[1, 2]), (4, &[1, 2]), (5, &[2]), (6, &[2])] {
            set.extend(lists(r, v));
        }
        set.extend([vec![2, 2, 2, 2, 2, 1], vec![3, 2, 2, 2, 2], vec![6], vec![4], vec![2, 3, 4, 5, 6, 7], vec![5, 6, 7], vec![4, 6, 7]]);
        for a in &set {
            for b in &set {
                c.case("pairs", || format!("{a:?} {b:?}"), |c| pairs(c, a, b));
            }
        }
    });
}
