//! Element types with distinct values by position and recognisable poison.

use std::fmt::Debug;

use essay_tensor::tensor::Type;
use num_complex::Complex;

pub trait Elem: Type + Clone + PartialEq + Debug {
    fn nth(i: usize) -> Self;
    fn poison(i: usize) -> Self;
}

macro_rules! elem_int {
    ($($t:ty)*) => { $(
        impl Elem for $t {
            fn nth(i: usize) -> Self { i as $t }
            fn poison(i: usize) -> Self { <$t>::MAX - (i % 100) as $t }
        }
    )* }
}

elem_int!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize);

impl Elem for f32 {
    fn nth(i: usize) -> Self { i as f32 }
    fn poison(i: usize) -> Self { -1.0e30 - i as f32 * 1e25 }
}

impl Elem for f64 {
    fn nth(i: usize) -> Self { i as f64 }
    fn poison(i: usize) -> Self { -1.0e30 - i as f64 * 1e25 }
}

impl Elem for String {
    fn nth(i: usize) -> Self { format!("e{i}") }
    fn poison(i: usize) -> Self { format!("POISON{i}") }
}

impl Elem for bool {
    fn nth(i: usize) -> Self { (i * 7 + i / 3) % 2 == 0 }
    fn poison(_: usize) -> Self { true }
}

impl Elem for (u8, u64) {
    fn nth(i: usize) -> Self { (i as u8, i as u64) }
    fn poison(i: usize) -> Self { (0xEE, u64::MAX - i as u64) }
}

impl Elem for Complex<f32> {
    fn nth(i: usize) -> Self { Complex::new(i as f32, -(i as f32)) }
    fn poison(i: usize) -> Self { Complex::new(f32::poison(i), 0.) }
}

impl Elem for Option<u16> {
    fn nth(i: usize) -> Self { if i % 5 == 4 { None } else { Some(i as u16) } }
    fn poison(_: usize) -> Self { Some(0xEEEE) }
}
