//! C01: CRINEX numeric differencing is lossless
use crate::sym::*;
use rinex::hatanaka::NumDiff;

fn run<const M: usize>(level: usize) {
    let lim = 1i64 << 45;
    let x0 = int(-lim, lim);
    let mut c = NumDiff::<M>::new(x0, level);
    let mut d = NumDiff::<M>::new(x0, level);
    let reinit = choose(9);
    for i in 0..9 {
        let x = int(-lim, lim);
        if i > 0 && i == reinit {
            c.force_init(x, level);
            d.force_init(x, level);
            continue;
        }
        let y = c.compress(x);
        let z = d.decompress(y);
        check(z == x, "sample recovered");
        observe(y as u64);
        observe(z as u64);
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c01_m6() {
    let level = 1 + choose(6);
    run::<6>(level)
}
#[no_mangle]
pub extern "C" fn c01_m5() {
    let level = 1 + choose(5);
    run::<5>(level)
}
