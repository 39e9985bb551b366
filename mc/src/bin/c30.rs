//! C30: equality, ordering and formatting.
use std::cmp::Ordering;
use std::fmt::Debug;

use essay_tensor::tensor::{Tensor, Type};
use mc::*;
use num_complex::Complex;

/// Every shape of the given size with rank 0..=hi.
fn shapes_of(n: usize, hi: usize) -> Vec<Vec<usize>> {
    let set: Vec<usize> = if n == 0 { vec![0, 1, 2] } else { (1..=n).filter(|d| n % d == 0).collect() };
    (0..=hi).flat_map(|r| lists(r, &set)).filter(|d| size(d) == n).collect()
}

fn eq_want<T: PartialEq>(a: &M<T>, b: &M<T>) -> bool {
    a.dims == b.dims && a.data.iter().zip(&b.data).all(|(x, y)| x == y)
}

fn cmp_want<T: PartialOrd>(a: &M<T>, b: &M<T>) -> Option<Ordering> {
    for (x, y) in a.data.iter().zip(&b.data) {
        match x.partial_cmp(y) {
            Some(Ordering::Equal) => {}
            o => return o,
        }
    }
    a.data.len().partial_cmp(&b.data.len())
}

fn check_eq<T: Type + PartialEq>(c: &mut Ctx, a: &Tensor<T>, b: &Tensor<T>, want: bool) -> R {
    c.ticks(4);
    if (a == b) != want || (b == a) != want { return Err(format!("== gives {} / {}, expected {want}", a == b, b == a)); }
    if (a != b) == want { return Err(format!("!= gives {}", a != b)); }
    Ok(())
}

fn check_ord<T: Type + PartialOrd>(c: &mut Ctx, a: &Tensor<T>, b: &Tensor<T>, want: Option<Ordering>, eq: bool) -> R {
    c.ticks(5);
    let got = a.partial_cmp(b);
    if want == Some(Ordering::Equal) {
        // the elements agree: equal only for equal shapes
        if eq != (got == Some(Ordering::Equal)) { return Err(format!("order {got:?} of tensors that are {}", if eq { "equal" } else { "not equal" })); }
    } else if got != want {
        return Err(format!("order {got:?}, expected {want:?}"));
    }
    if b.partial_cmp(a) != got.map(|o| o.reverse()) { return Err(format!("order {got:?} but reversed {:?}", b.partial_cmp(a))); }
    let by = [a < b, a <= b, a > b, a >= b];
    let exp = match got {
        None => [false; 4],
        Some(Ordering::Less) => [true, true, false, false],
        Some(Ordering::Equal) => [false, true, false, true],
        Some(Ordering::Greater) => [false, false, true, true],
    };
    if by != exp { return Err(format!("< <= > >= give {by:?} for order {got:?}")); }
    Ok(())
}

/// Parses the printed form into elements and nesting.
fn parse(text: &str) -> Result<(Vec<String>, Vec<usize>, Vec<usize>, bool), String> {
    let at = text.rfind("shape:").ok_or("no dimensions printed")?;
    let nums = |s: &str| -> Vec<usize> { s.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect() };
    let shape = nums(&text[at..]);
    let start = text.find('{').ok_or("no opening brace")? + 1;
    let body = &text[start..at];
    let (mut elems, mut depth) = (vec![], 0usize);
    // number of entries seen at each depth, for each closed group
    let mut counts: Vec<usize> = vec![];
    let mut dims: Vec<Option<usize>> = vec![None; 16];
    let mut uniform = true;
    let mut word = String::new();
    let mut leaf_depth = None;
    let mut flush = |word: &mut String, counts: &mut Vec<usize>, depth: usize| {
        if !word.is_empty() {
            elems.push(std::mem::take(word));
            if let Some(c) = counts.last_mut() { *c += 1; }
            if *leaf_depth.get_or_insert(depth) != depth { leaf_depth = Some(99); }
        }
    };
    for ch in body.chars() {
        match ch {
            '[' => {
                flush(&mut word, &mut counts, depth);
                if let Some(c) = counts.last_mut() { *c += 1; }
                depth += 1;
                counts.push(0);
            }
            ']' => {
                flush(&mut word, &mut counts, depth);
                let n = counts.pop().ok_or("unbalanced brackets")?;
                depth -= 1;
                if *dims[depth].get_or_insert(n) != n { uniform = false; }
            }
            c if c == ',' || c.is_whitespace() => flush(&mut word, &mut counts, depth),
            c => word.push(c),
        }
    }
    flush(&mut word, &mut counts, depth);
    if depth != 0 { return Err("unbalanced brackets".into()); }
    let dims: Vec<usize> = dims.into_iter().flatten().collect();
    if leaf_depth == Some(99) { uniform = false; }
    Ok((elems, dims, shape, uniform))
}

fn check_fmt<T: Type + Debug>(c: &mut Ctx, t: &Tensor<T>, m: &M<T>) -> R {
    c.tick();
    let text = ok("format", || format!("{t:?}"))?;
    let want: Vec<String> = m.data.iter().map(|v| format!("{v:?}")).collect();
    let (elems, dims, shape, uniform) = parse(&text).map_err(|e| format!("{e} in {text}"))?;
    if elems != want { return Err(format!("elements {elems:?} printed, expected {want:?}: {text}")); }
    if shape != m.dims { return Err(format!("dimensions {shape:?} printed for {:?}: {text}", m.dims)); }
    if !m.data.is_empty() && (dims != m.dims || !uniform) { return Err(format!("grouped as {dims:?}, expected {:?}: {text}", m.dims)); }
    Ok(())
}

const NAN: f32 = f32::NAN;

fn main() {
    run("c30", |c| {
        // all pairs over a small universe of integers
        let mut uni: Vec<M<i32>> = vec![];
        for n in 0..=c.pick(4, 5) {
            for d in shapes_of(n, if n == 0 { 2 } else { c.pick(4, 5) }) {
                for v in lists(n, &[0, 1]) {
                    uni.push(M::new(&d, v.iter().map(|x| *x as i32).collect()));
                }
            }
        }
        let tens: Vec<Tensor<i32>> = uni.iter().enumerate().map(|(i, m)| build(m, [Prov::Own, Prov::Mid, Prov::Nested, Prov::Tail][i % 4])).collect();
        let other: Vec<Tensor<i32>> = uni.iter().enumerate().map(|(i, m)| build(m, [Prov::Mapped, Prov::Clone, Prov::OuterTail][i % 3])).collect();
        for i in 0..uni.len() {
            c.case("pairs", || format!("{:?} against all", uni[i]), |c| {
                for j in 0..uni.len() {
                    c.state(&(i, j));
                    let eq = eq_want(&uni[i], &uni[j]);
                    let ord = cmp_want(&uni[i], &uni[j]);
                    for b in [&tens[j], &other[j]] {
                        check_eq(c, &tens[i], b, eq).map_err(|e| format!("with {:?}: {e}", uni[j]))?;
                        check_ord(c, &tens[i], b, ord, eq).map_err(|e| format!("with {:?}: {e}", uni[j]))?;
                    }
                    c.outcome(&(eq, ord));
                }
                Ok(())
            });
        }
        // floats with NaN and signed zeros
        let alpha = [0f32, -0., 1., NAN, -1., f32::INFINITY];
        let mut uni: Vec<M<f32>> = vec![];
        for n in 0..=3 {
            for d in shapes_of(n, 2) {
                let k: &[usize] = if n == 3 && c.quick() { &[0, 1, 2, 3] } else { &[0, 1, 2, 3, 4, 5] };
                for v in lists(n, k) {
                    uni.push(M::new(&d, v.iter().map(|x| alpha[*x]).collect()));
                }
            }
        }
        let tens: Vec<Tensor<f32>> = uni.iter().enumerate().map(|(i, m)| build(m, FEW_PROV[i % 3])).collect();
        for i in 0..uni.len() {
            c.case("float pairs", || format!("{:?} against all", uni[i]), |c| {
                for j in 0..uni.len() {
                    c.state(&("f", i, j));
                    let eq = eq_want(&uni[i], &uni[j]);
                    check_eq(c, &tens[i], &tens[j], eq).map_err(|e| format!("with {:?}: {e}", uni[j]))?;
                    check_ord(c, &tens[i], &tens[j], cmp_want(&uni[i], &uni[j]), eq).map_err(|e| format!("with {:?}: {e}", uni[j]))?;
                }
                // the same storage
                let cl = tens[i].clone();
                let eq = eq_want(&uni[i], &uni[i]);
                check_eq(c, &tens[i], &cl, eq)?;
                check_eq(c, &cl, &cl, eq)?;
                let flat = cl.clone().flatten();
                let fm = M::new(&[uni[i].data.len()], uni[i].data.clone());
                check_eq(c, &tens[i], &flat, eq_want(&uni[i], &fm))?;
                check_ord(c, &tens[i], &flat, cmp_want(&uni[i], &fm), eq_want(&uni[i], &fm))
            });
        }
        // windows of one storage
        for content in [vec![0, 1, 0, 1, 0, 1], vec![0; 6], vec![0, 0, 1, 0, 0, 1], vec![1, 2, 3, 4, 5, 6], vec![0, 1, 1, 0, 1, 1]] {
            let t = Tensor::from_vec(content.clone(), [6]);
            let t2 = Tensor::from_vec(content.clone(), [6]);
            let mut wins: Vec<(usize, Vec<usize>)> = vec![];
            for off in 0..=6 {
                for len in 0..=6 - off {
                    for d in shapes_of(len, if len == 0 { 1 } else { 3 }) { wins.push((off, d)); }
                }
            }
            for (o1, d1) in wins.clone() {
                c.case("windows", || format!("{content:?} window at {o1} {d1:?} against all windows"), |c| {
                    let n1 = size(&d1);
                    let m1 = M::new(&d1, content[o1..o1 + n1].to_vec());
                    let a = t.subslice_flat(o1, n1, shape(&d1));
                    for (o2, d2) in &wins {
                        let n2 = size(d2);
                        let m2 = M::new(d2, content[*o2..o2 + n2].to_vec());
                        c.state(&(o1, &d1, o2, d2));
                        for s in [&t, &t2] {
                            let b = s.subslice_flat(*o2, n2, shape(d2));
                            let eq = eq_want(&m1, &m2);
                            check_eq(c, &a, &b, eq).map_err(|e| format!("with the window at {o2} {d2:?}: {e}"))?;
                            check_ord(c, &a, &b, cmp_want(&m1, &m2), eq).map_err(|e| format!("with the window at {o2} {d2:?}: {e}"))?;
                        }
                    }
                    Ok(())
                });
            }
        }
        // one difference at every position of every length
        for n in lengths(c, 1) {
            c.case("one difference", || format!("length {n}"), |c| {
                c.state(&("diff", n));
                let base: Vec<i32> = (0..n as i32).map(|i| i % 50).collect();
                let a = Tensor::from_vec(base.clone(), [n]);
                let f = Tensor::from_vec(base.iter().map(|v| *v as f32).collect(), [n]);
                let pos: Vec<usize> = if n <= 260 { (0..n).collect() } else { (0..20).map(|k| k * (n - 1) / 19).chain([1, n - 2]).collect() };
                check_eq(c, &a, &Tensor::from_vec(base.clone(), [n]), true)?;
                check_ord(c, &a, &Tensor::from_vec(base.clone(), [n]), Some(Ordering::Equal), true)?;
                for p in pos {
                    let mut b = base.clone();
                    b[p] += 1;
                    if p + 1 < n { b[p + 1] = -5; }
                    let g = Tensor::from_vec(b.iter().map(|v| *v as f32).collect::<Vec<f32>>(), [n]);
                    let mut nan: Vec<f32> = base.iter().map(|v| *v as f32).collect();
                    nan[p] = NAN;
                    let b = Tensor::from_vec(b, [n]);
                    check_eq(c, &a, &b, false).map_err(|e| format!("difference at {p}: {e}"))?;
                    check_ord(c, &a, &b, Some(Ordering::Less), false).map_err(|e| format!("difference at {p}: {e}"))?;
                    check_eq(c, &f, &g, false).map_err(|e| format!("difference at {p}: {e}"))?;
                    let nan = Tensor::from_vec(nan, [n]);
                    check_eq(c, &nan, &nan.clone(), false).map_err(|e| format!("NaN at {p}: {e}"))?;
                    check_ord(c, &f, &nan, None, false).map_err(|e| format!("NaN at {p}: {e}"))?;
                }
                if n > 1 {
                    let b = a.subslice(0, n - 1);
                    check_eq(c, &a, &b, false)?;
                    check_ord(c, &a, &b, Some(Ordering::Greater), false)?;
                }
                Ok(())
            });
        }
        // other element types and all provenances
        macro_rules! types {
            ($($t:ty),*) => { $(
                for d in [vec![], vec![1], vec![3], vec![2, 2], vec![1, 3, 2], vec![2, 1, 2, 2], vec![1, 2, 1, 2, 1], vec![2, 1, 1, 1, 1, 2]] {
                    c.case("types", || format!("{} {d:?}", stringify!($t)), |c| {
                        c.state(&(stringify!($t), &d));
                        let m = M::<$t>::seq(&d, 3);
                        for p in ALL_PROV { for q in ALL_PROV {
                            let (a, b) = (build(&m, p), build(&m, q));
                            check_eq(c, &a, &b, true).map_err(|e| format!("{p:?} {q:?}: {e}"))?;
                            for k in 0..m.data.len() {
                                let mut n = m.clone();
                                n.data[k] = <$t>::poison(k);
                                if n.data[k] == m.data[k] { continue; }
                                check_eq(c, &a, &build(&n, q), false).map_err(|e| format!("{p:?} {q:?} position {k}: {e}"))?;
                            }
                            if d.len() < 6 {
                                let mut e = d.clone();
                                e.push(1);
                                check_eq(c, &a, &build(&M::<$t>::seq(&e, 3), q), false)?;
                            }
                        } }
                        Ok(())
                    });
                }
            )* };
        }
        types!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, f32, f64, String, bool, (u8, u64), Complex<f32>, Option<u16>);
        // formatting
        let mut all = small_shapes(c.tier, 0, 6);
        all.extend(long_shapes(c, 1, 6).into_iter().filter(|d| size(d) <= 2000));
        all.extend([vec![0], vec![0, 3], vec![3, 0], vec![2, 0, 2], vec![0, 0]]);
        for d in all {
            for p in FEW_PROV {
                c.case("format", || format!("{d:?} {p:?}"), |c| {
                    c.state(&("fmt", &d, p));
                    let m = M::<i32>::seq(&d, 7);
                    check_fmt(c, &build(&m, p), &m)?;
                    let f = M::new(&d, (0..size(&d)).map(|i| [0.5f32, -0., NAN, 1e30, -3.25, f32::INFINITY][i % 6] + (i / 6) as f32).collect());
                    check_fmt(c, &build(&f, p), &f)
                });
            }
        }
        for n in lengths(c, 0) {
            if n > 1 << 14 { continue; }
            c.case("format long", || format!("length {n}"), |c| {
                c.state(&("fmtlong", n));
                let m = M::<u32>::seq(&[n], 0);
                check_fmt(c, &build(&m, Prov::Mid), &m)?;
                let m = M::<bool>::seq(&[n], 0);
                check_fmt(c, &build(&m, Prov::Own), &m)
            });
        }
    });
}
