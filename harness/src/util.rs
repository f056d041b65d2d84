#![allow(dead_code)]
pub use crate::sym::*;
pub use rinex::prelude::*;
pub use std::io::{BufReader, BufWriter};
pub use std::str::FromStr;

pub fn parse(text: &[u8]) -> Result<Rinex, ParsingError> {
    dump("parsed", text);
    let mut r = BufReader::with_capacity(1 << 16, text);
    Rinex::parse(&mut r)
}
pub fn format(r: &Rinex) -> Vec<u8> {
    let mut w = BufWriter::with_capacity(1 << 16, Vec::<u8>::new());
    let ok = r.format(&mut w).is_ok();
    check(ok, "formatting succeeds");
    match w.into_inner() {
        Ok(v) => {
            dump("formatted", &v);
            v
        }
        Err(_) => {
            check(false, "flush");
            vec![]
        }
    }
}
/// one header line: content padded to 60 columns, then the label
pub fn hl(out: &mut Vec<u8>, content: &str, label: &str) {
    out.extend_from_slice(content.as_bytes());
    for _ in content.len()..60 {
        out.push(b' ');
    }
    out.extend_from_slice(label.as_bytes());
    out.push(b'\n');
}
pub fn same_f(a: f64, b: f64) -> bool {
    a == b
}
pub fn sv(s: &str) -> SV {
    SV::from_str(s).unwrap()
}
pub fn ob(s: &str) -> Observable {
    Observable::from_str(s).unwrap()
}
/// a decimal field of `width` columns: [-]digits.digits, right aligned, with free digits.
/// returns the value spelled
pub fn decimal_field(out: &mut Vec<u8>, width: usize, nint: usize, nfrac: usize, neg: bool) -> f64 {
    let n = nint + 1 + nfrac + neg as usize;
    for _ in n..width {
        out.push(b' ');
    }
    if neg {
        out.push(b'-');
    }
    let a = out.len();
    let mut k = 0i64;
    for _ in 0..nint {
        let d = digit();
        out.push(d);
        k = k * 10 + (d - b'0') as i64;
    }
    out.push(b'.');
    for _ in 0..nfrac {
        let d = digit();
        out.push(d);
        k = k * 10 + (d - b'0') as i64;
    }
    let _ = a;
    dec(if neg { -k } else { k }, nfrac as u32)
}
