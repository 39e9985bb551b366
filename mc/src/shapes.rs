//! Enumeration of shapes, lengths and argument lists.

use crate::ctx::{Ctx, Tier};

/// All lists of length `rank` over `set`, last entry fastest.
pub fn lists(rank: usize, set: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..rank {
        let mut next = Vec::new();
        for p in &out {
            for d in set {
                let mut q = p.clone();
                q.push(*d);
                next.push(q);
            }
        }
        out = next;
    }
    out
}

pub fn size(dims: &[usize]) -> usize {
    dims.iter().product()
}

/// All non-empty shapes of rank lo..=hi within the bounds of the tier:
/// dims 1..=3 up to rank 4 and 1..=2 for rank 5 and 6 (thorough: 1..=5 up to
/// rank 3, 1..=4 at rank 4, 1..=3 beyond).
pub fn small_shapes(tier: Tier, lo: usize, hi: usize) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    for r in lo..=hi {
        let set: &[usize] = match (tier, r) {
            (Tier::Quick, 0..=3) => &[1, 2, 3, 4],
            (Tier::Quick, 4) => &[1, 2, 3],
            (Tier::Quick, _) => &[1, 2],
            (Tier::Thorough, 0..=3) => &[1, 2, 3, 4, 5, 6],
            (Tier::Thorough, 4) => &[1, 2, 3, 4],
            (Tier::Thorough, _) => &[1, 2, 3],
        };
        out.extend(lists(r, set));
    }
    out.sort_by_key(|d| (size(d), d.len()));
    out
}

/// Lengths: every value up to a bound, then both sides of each power of two.
pub fn lengths(ctx: &Ctx, lo: usize) -> Vec<usize> {
    let dense = ctx.pick(160, 600);
    let top = ctx.pick(17, 20);
    let mut v: Vec<usize> = (lo..=dense).collect();
    for p in 7..=top {
        let n = 1usize << p;
        for x in [n - 1, n, n + 1, n + n / 2] {
            if x > dense {
                v.push(x);
            }
        }
    }
    v.extend([1000, 5000, 10_000, 100_000]);
    if !ctx.quick() {
        v.extend([200_000, 1_000_000]);
    }
    v.sort();
    v.dedup();
    v
}

/// A few long lengths (both sides of powers of two) used as one axis of
/// higher-rank shapes.
pub fn long_axis(ctx: &Ctx) -> Vec<usize> {
    let mut v = vec![5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 23, 24, 25, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025];
    if !ctx.quick() {
        v.extend([1023, 2047, 2048, 2049, 4095, 4096, 4097, 10_000]);
    }
    v
}

/// Shapes with one long axis at every position and small other axes, plus a
/// grid of rectangular matrices.
pub fn long_shapes(ctx: &Ctx, lo: usize, hi: usize) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    for r in lo..=hi {
        if r == 0 {
            continue;
        }
        let others: Vec<Vec<usize>> = match r {
            1 => vec![vec![]],
            2 => lists(1, &[1, 2, 3, 5]),
            3 => lists(2, &[1, 2, 3]),
            4 => vec![vec![1, 1, 1], vec![2, 1, 3], vec![2, 3, 2]],
            5 => vec![vec![1, 1, 1, 1], vec![2, 1, 2, 2]],
            _ => vec![vec![2, 1, 1, 2, 1]],
        };
        for n in long_axis(ctx) {
            for o in &others {
                for pos in 0..r {
                    let mut d = o.clone();
                    d.insert(pos, n);
                    out.push(d);
                }
            }
        }
        if r == 2 {
            let m = ctx.pick(20, 40);
            for a in 4..=m {
                for b in 4..=m {
                    out.push(vec![a, b]);
                }
            }
            let big: &[usize] = if ctx.quick() { &[31, 32, 33, 63, 64, 65, 127, 128, 129] } else { &[31, 32, 33, 34, 47, 48, 63, 64, 65, 96, 127, 128, 129, 255, 256, 257] };
            for d in lists(2, big) {
                out.push(d);
            }
            for d in [[128, 100], [100, 128], [257, 130], [300, 200], [513, 257], [256, 1024], [1025, 300], [70000, 2], [2, 70000], [66000, 3], [3, 66000]] {
                out.push(d.to_vec());
            }
        }
        if r == 3 {
            let m = ctx.pick(7, 10);
            for a in 1..=m {
                for b in 1..=m {
                    for c in 1..=m {
                        if a > 4 || b > 4 || c > 4 {
                            out.push(vec![a, b, c]);
                        }
                    }
                }
            }
            for d in lists(2, if ctx.quick() { &[16, 17, 33, 65] } else { &[9, 15, 16, 17, 31, 32, 33, 63, 64, 65] }) {
                for pos in 0..3 {
                    for n in [2, 3] {
                        let mut e = d.clone();
                        e.insert(pos, n);
                        out.push(e);
                    }
                }
            }
            out.extend([vec![40, 41, 42], vec![1000, 3, 3], vec![3, 3, 1000], vec![3, 1000, 3], vec![128, 32, 17], vec![2, 300, 200]]);
        }
        match r {
            4 => out.extend([vec![17, 17, 17, 17], vec![9, 8, 7, 6], vec![5, 6, 7, 8], vec![33, 2, 33, 2], vec![2, 33, 2, 33]]),
            5 => out.extend([vec![9, 9, 9, 9, 9], vec![3, 4, 5, 6, 7], vec![7, 6, 5, 4, 3], vec![17, 2, 17, 2, 3]]),
            6 => out.extend([vec![6, 6, 6, 6, 6, 6], vec![2, 3, 4, 5, 6, 7], vec![7, 6, 5, 4, 3, 2]]),
            _ => {}
        }
    }
    out.sort_by_key(|d| (size(d), d.len()));
    out.dedup();
    out
}

/// Iterates over all multi-indices of `dims` in row-major order.
pub fn indices(dims: &[usize]) -> Vec<Vec<usize>> {
    let n = size(dims);
    let mut out = Vec::with_capacity(n);
    let mut idx = vec![0; dims.len()];
    for _ in 0..n {
        out.push(idx.clone());
        for k in (0..dims.len()).rev() {
            idx[k] += 1;
            if idx[k] < dims[k] {
                break;
            }
            idx[k] = 0;
        }
    }
    out
}

/// Row-major position of an index.
pub fn flat(dims: &[usize], idx: &[usize]) -> usize {
    let mut o = 0;
    for (d, i) in dims.iter().zip(idx) {
        o = o * d + i;
    }
    o
}

/// All axis arguments that name axis 0..rank: positive and negative.
pub fn axes(rank: usize) -> Vec<(isize, usize)> {
    let mut v = Vec::new();
    for a in 0..rank {
        v.push((a as isize, a));
        v.push((a as isize - rank as isize, a));
    }
    v
}
