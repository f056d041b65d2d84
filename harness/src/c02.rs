//! C02: CRINEX text differencing is lossless
use crate::sym::*;
use rinex::hatanaka::TextDiff;

/// any text of n columns without '&'
fn line(n: usize) -> Vec<u8> {
    let mut t = vec![];
    for _ in 0..n {
        let b = printable();
        assume(b != b'&');
        t.push(b);
    }
    t
}
/// equal up to trailing blanks
fn recovered(line: &[u8], got: &[u8]) -> bool {
    let mut ok = true;
    for i in 0..line.len().max(got.len()) {
        let a = if i < line.len() { line[i] } else { b' ' };
        let b = if i < got.len() { got[i] } else { b' ' };
        ok &= a == b;
    }
    ok
}
fn run(columns: usize, lines: usize, init: bool) {
    let mut c = TextDiff::new("");
    let mut d = TextDiff::new("");
    let again = if init { choose(lines + 1) } else { lines };
    for i in 0..lines {
        let n = choose(columns + 1);
        let t = line(n);
        if (init && i == 0) || i == again {
            // (re)initialisation: provided as is
            c.force_init(text(&t));
            d.force_init(text(&t));
            continue;
        }
        let z = c.compress(text(&t)).to_string();
        let r = d.decompress(&z);
        observe_s(&z);
        observe_s(r);
        check(recovered(&t, r.as_bytes()), "line recovered");
    }
    reach("end");
}
/// lines grow and shrink
#[no_mangle]
pub extern "C" fn c02_lengths() {
    if thorough() {
        run(3, 4, false)
    } else {
        run(2, 4, false)
    }
}
/// starting from, and interrupted by, reinitialisations
#[no_mangle]
pub extern "C" fn c02_reinit() {
    if thorough() {
        run(3, 4, true)
    } else {
        run(2, 4, true)
    }
}
/// trailing blanks of the differential may be trimmed
#[no_mangle]
pub extern "C" fn c02_trimmed() {
    let mut c = TextDiff::new("");
    let mut d = TextDiff::new("");
    for _ in 0..(if thorough() { 4 } else { 3 }) {
        let n = choose(4);
        let t = line(n);
        let z = c.compress(text(&t)).trim_end().to_string();
        let r = d.decompress(&z);
        observe_s(r);
        check(recovered(&t, r.as_bytes()), "line recovered");
    }
    reach("end");
}
/// meaning of a differential: blank keeps, '&' blanks, anything else replaces
#[no_mangle]
pub extern "C" fn c02_meaning() {
    let a = choose(4);
    let n = choose(6);
    let old = line(a);
    let mut z = vec![];
    for _ in 0..n {
        z.push(printable());
    }
    let mut d = TextDiff::new(text(&old));
    let r = d.decompress(text(&z)).as_bytes();
    observe_s(text(r));
    let mut want = vec![];
    for i in 0..a.max(n) {
        let o = if i < a { old[i] } else { b' ' };
        want.push(if i >= n || fork(z[i] == b' ') {
            o
        } else if fork(z[i] == b'&') {
            b' '
        } else {
            z[i]
        });
    }
    check(recovered(&want, r), "differential applied");
    reach("end");
}
