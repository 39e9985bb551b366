//! C31 under AddressSanitizer: every access outside a live block ends the
//! process. The size limit on allocations is set with ASAN_OPTIONS.
use mc::sweep::{explore, Probe};
use mc::*;

fn main() {
    run("C31", |c| explore(c, Probe { fill: None, verdict: || Ok(()), limit: |_| {} }));
}
