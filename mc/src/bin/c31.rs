//! C31 with the checking allocator: canaries, layouts, and two different
//! contents of fresh memory.
use mc::sweep::{explore, Probe};
use mc::*;

#[global_allocator]
static A: calloc::Checking = calloc::Checking;

fn main() {
    run("C31", |c| explore(c, Probe { fill: Some(calloc::fill), verdict: calloc::check, limit: calloc::fail_from }));
}
