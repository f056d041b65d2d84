//! C25: revision numbers parse, print and order consistently
use crate::util::*;
use rinex::version::SUPPORTED_VERSION;

fn v() -> Version {
    Version::new(byte(), byte())
}
#[no_mangle]
pub extern "C" fn c25_print_parse() {
    let a = v();
    let s = a.to_string();
    observe_s(&s);
    match Version::from_str(&s) {
        Ok(b) => {
            check((b.major == a.major) & (b.minor == a.minor), "parses back to the same numbers");
            check(b == a, "equal");
            check(same(b.to_string().as_bytes(), s.as_bytes()), "prints back identically");
        }
        Err(_) => check(false, "its own print parses"),
    }
    reach("end");
}
/// any spelling d{1,3}[.d{1,3}], up to one column replaced by a character that is neither
#[no_mangle]
pub extern "C" fn c25_spelling() {
    let nm = 1 + choose(3);
    let dot = flip();
    let ni = if dot { 1 + choose(3) } else { 0 };
    let mut t = digits(nm);
    let major = num(&t);
    let mut minor = 0;
    if dot {
        let d = digits(ni);
        minor = num(&d);
        t.push(b'.');
        t.extend_from_slice(&d);
    }
    let bad = choose(t.len() + 1);
    if bad < t.len() {
        let b = byte();
        assume((b < 0x80) & !b.is_ascii_digit() & (b != b'.') & (b != b'+'));
        t[bad] = b;
    }
    let r = Version::from_str(text(&t));
    if bad < t.len() {
        check(r.is_err(), "anything else is rejected");
    } else {
        match r {
            Ok(r) => check((r.major as i64 == major) & (r.minor as i64 == minor), "value spelled"),
            Err(_) => check((major > 255) | (minor > 255), "a number that fits is accepted"),
        }
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c25_order() {
    let (a, b) = (v(), v());
    let (ka, kb) = ((a.major as u32) << 8 | a.minor as u32, (b.major as u32) << 8 | b.minor as u32);
    check((a == b) == (ka == kb), "equality");
    check((a != b) == (ka != kb), "inequality");
    check((a < b) == (ka < kb), "less");
    check((a <= b) == (ka <= kb), "less or equal");
    check((a > b) == (ka > kb), "greater");
    check((a >= b) == (ka >= kb), "greater or equal");
    let o = a.cmp(&b) as i8;
    check((o < 0) == (ka < kb), "cmp less");
    check((o > 0) == (ka > kb), "cmp greater");
    check(a.partial_cmp(&b).map(|x| x as i8) == Some(o), "partial_cmp");
    let (x, y): (u8, u8) = a.into();
    check((x == a.major) & (y == a.minor), "as numbers");
    let lim = (SUPPORTED_VERSION.major as u32) << 8 | SUPPORTED_VERSION.minor as u32;
    check(a.is_supported() == (ka <= lim), "supported up to the highest");
    reach("end");
}
#[no_mangle]
pub extern "C" fn c25_arithmetic() {
    let a = v();
    let k = byte();
    if flip() {
        assume(a.major as u32 + k as u32 <= 255);
        let b = a + k;
        check((b.major as u32 == a.major as u32 + k as u32) & (b.minor == a.minor), "sum of majors");
        let mut c = a;
        c += k;
        check(c == b, "+= agrees");
        check(b >= a, "monotonic");
        if fork((a.major >= 1) & (k >= 1)) {
            check(b - k == a, "undone by subtraction");
        }
    } else {
        let b = a - k;
        let m = if k >= a.major { 1 } else { a.major - k };
        check((b.major == m) & (b.minor == a.minor), "difference of majors, at least 1");
        let mut c = a;
        c -= k;
        check(c == b, "-= agrees");
    }
    reach("end");
}
/// the first header line
#[no_mangle]
pub extern "C" fn c25_header() {
    let mut l = vec![];
    let lay = choose(4);
    let d = digits(3);
    let (major, minor);
    match lay {
        0 => {
            // F9.2
            l.extend_from_slice(b"     ");
            l.extend_from_slice(&[d[0], b'.', d[1], d[2]]);
            major = num(&d[..1]);
            minor = num(&d[1..]);
        }
        1 => {
            l.extend_from_slice(b"     ");
            l.push(d[0]);
            major = num(&d[..1]);
            minor = 0;
        }
        2 => {
            l.extend_from_slice(b"     ");
            l.extend_from_slice(&[d[0], b'.', d[1]]);
            major = num(&d[..1]);
            minor = num(&d[1..2]);
        }
        _ => {
            l.extend_from_slice(&[d[0], b'.', d[1], d[2]]);
            major = num(&d[..1]);
            minor = num(&d[1..]);
        }
    }
    l.resize(20, b' ');
    l.extend_from_slice(b"OBSERVATION DATA    G");
    let mut h = vec![];
    hl(&mut h, text(&l), "RINEX VERSION / TYPE");
    hl(&mut h, "", "END OF HEADER");
    let mut r = BufReader::with_capacity(4096, &h[..]);
    match rinex::header::Header::parse(&mut r) {
        Ok(h) => {
            check((h.version.major as i64 == major) & (h.version.minor as i64 == minor), "revision of the file");
            check(h.version.is_supported(), "supported");
        }
        Err(_) => check(!Version::new(major as u8, minor as u8).is_supported(), "supported revisions are accepted"),
    }
    reach("end");
}
