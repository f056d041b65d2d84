//! Replacements the engine uses for a few core library routines when (and only when) their input is
//! symbolic: same results, written without table lookups, SIMD or big-number arithmetic.
use crate::sym::*;
use std::fmt;
use std::num::ParseFloatError;

fn bad_float(empty: bool) -> ParseFloatError {
    (if empty { "" } else { "x" }).parse::<f64>().unwrap_err()
}

#[no_mangle]
#[inline(never)]
pub fn model_f64_from_str(s: &str) -> Result<f64, ParseFloatError> {
    let b = s.as_bytes();
    let n = b.len();
    if n == 0 {
        return Err(bad_float(true));
    }
    let mut i = 0;
    let mut neg = false;
    if b[0] == b'-' {
        neg = true;
        i = 1;
    } else if b[0] == b'+' {
        i = 1;
    }
    if i == n {
        return Err(bad_float(false));
    }
    // words
    let rest = &b[i..];
    let word = |w: &[u8]| -> bool {
        if rest.len() != w.len() {
            return false;
        }
        for j in 0..w.len() {
            if !((rest[j] | 0x20) == w[j]) {
                return false;
            }
        }
        true
    };
    if word(b"inf") || word(b"infinity") {
        return Ok(if neg { f64::NEG_INFINITY } else { f64::INFINITY });
    }
    if word(b"nan") {
        return Ok(f64::NAN);
    }
    let mut k = 0i64;
    let mut nd = 0;
    let mut sc = 0i64;
    let mut dot = false;
    while i < n {
        let c = b[i];
        if c >= b'0' && c <= b'9' {
            if nd < 18 {
                k = k * 10 + (c - b'0') as i64;
            } else {
                // too many digits for this model: a leading zero run is fine, else give up
                unsupported();
            }
            nd += 1;
            if dot {
                sc += 1;
            }
        } else if c == b'.' && !dot {
            dot = true;
        } else {
            break;
        }
        i += 1;
    }
    if nd == 0 {
        return Err(bad_float(false));
    }
    if i < n {
        if !(b[i] == b'e' || b[i] == b'E') {
            return Err(bad_float(false));
        }
        i += 1;
        let mut eneg = false;
        if i < n && (b[i] == b'-' || b[i] == b'+') {
            eneg = b[i] == b'-';
            i += 1;
        }
        if i == n {
            return Err(bad_float(false));
        }
        let mut e = 0i64;
        while i < n {
            let c = b[i];
            if !(c >= b'0' && c <= b'9') {
                return Err(bad_float(false));
            }
            e = e * 10 + (c - b'0') as i64;
            i += 1;
        }
        if eneg {
            e = -e;
        }
        // concrete from here on: one path per exponent
        let mut c = sc - 40;
        let lim = sc + 40;
        loop {
            if c > lim {
                unsupported();
            }
            if fork(sc - e == c) {
                break;
            }
            c += 1;
        }
        sc = c;
    }
    while sc < 0 {
        if k > 900_000_000_000_000 {
            unsupported();
        }
        k *= 10;
        sc += 1;
    }
    if neg {
        if fork(k == 0) {
            return Ok(-0.0);
        }
        return Ok(dec(-k, sc as u32));
    }
    Ok(dec(k, sc as u32))
}

fn unsupported() -> ! {
    extern "C" {
        fn sym_unsupported() -> !;
    }
    unsafe { sym_unsupported() }
}

#[no_mangle]
#[inline(never)]
pub fn model_f32_from_str(_s: &str) -> Result<f32, ParseFloatError> {
    unsupported()
}

fn put(fmt: &mut fmt::Formatter<'_>, neg: bool, mut k: u64, prec: usize) -> fmt::Result {
    let mut buf = [b'0'; 40];
    let mut n = 40;
    let mut i = 0;
    loop {
        if i == prec && prec > 0 {
            n -= 1;
            buf[n] = b'.';
        }
        if i > prec && fork(k == 0) {
            break;
        }
        n -= 1;
        buf[n] = b'0' + (k % 10) as u8;
        k /= 10;
        i += 1;
    }
    fmt.pad_integral(!neg, "", unsafe { std::str::from_utf8_unchecked(&buf[n..]) })
}

#[no_mangle]
#[inline(never)]
pub fn model_f64_exact(fmt: &mut fmt::Formatter<'_>, num: f64, _plus: bool, prec: u16) -> fmt::Result {
    let k = undec(num, prec as u32);
    // the sign of a negative value that rounds to zero is still printed
    let neg = fork(num < 0.0);
    let a = if neg { (-k) as u64 } else { k as u64 };
    put(fmt, neg, a, prec as usize)
}

#[no_mangle]
#[inline(never)]
pub fn model_f64_shortest(fmt: &mut fmt::Formatter<'_>, num: f64, _plus: bool, minprec: u16) -> fmt::Result {
    // k/10^s with at most 15 significant digits prints as itself without trailing zeros
    let mut s = dec_scale(num);
    let mut k = undec(num, s);
    while s > 0 && fork(k % 10 == 0) {
        k /= 10;
        s -= 1;
    }
    let neg = fork(num < 0.0);
    let mut a = if neg { (-k) as u64 } else { k as u64 };
    if fork(a >= 1_000_000_000_000_000) {
        unsupported();
    }
    while s < minprec as u32 {
        a *= 10;
        s += 1;
    }
    put(fmt, neg, a, s as usize)
}

macro_rules! ints {
    ($($n:ident $t:ty),*) => {$(
        #[no_mangle]
        #[inline(never)]
        pub fn $n(v: &$t, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
            let v = *v;
            #[allow(unused_comparisons)]
            let neg = fork(v < 0);
            let a = if neg { (v as i64).wrapping_neg() as u64 } else { v as u64 };
            put(fmt, neg, a, 0)
        }
    )*}
}
ints!(model_fmt_u8 u8, model_fmt_u16 u16, model_fmt_u32 u32, model_fmt_u64 u64, model_fmt_i8 i8, model_fmt_i16 i16, model_fmt_i32 i32, model_fmt_i64 i64);

#[no_mangle]
#[inline(never)]
pub fn model_memchr_aligned(x: u8, t: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < t.len() {
        if t[i] == x {
            return Some(i);
        }
        i += 1;
    }
    None
}
#[no_mangle]
#[inline(never)]
pub fn model_memrchr(x: u8, t: &[u8]) -> Option<usize> {
    let mut i = t.len();
    while i > 0 {
        i -= 1;
        if t[i] == x {
            return Some(i);
        }
    }
    None
}
#[no_mangle]
#[inline(never)]
pub fn model_count_chars(s: &str) -> usize {
    let mut n = 0;
    for b in s.as_bytes() {
        n += ((*b as i8) >= -0x40) as usize;
    }
    n
}
