//! C15: meteo records, field by field, both ways
use crate::util::*;
use rinex::meteo::{MeteoKey, Record as MeteoRecord};

const CODES: [&str; 10] = ["PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"];

/// header with the `n` codes that start at the `from`th one
fn header(v3: bool, codes: &[&str]) -> Vec<u8> {
    let mut h = vec![];
    hl(&mut h, if v3 { "     3.02           METEOROLOGICAL DATA" } else { "     2.11           METEOROLOGICAL DATA" }, "RINEX VERSION / TYPE");
    for (i, c) in codes.chunks(9).enumerate() {
        let mut l = if i == 0 { format!("{:6}", codes.len()) } else { "      ".to_string() };
        for c in c {
            l.push_str("    ");
            l.push_str(c);
        }
        hl(&mut h, &l, "# / TYPES OF OBSERV");
    }
    hl(&mut h, "", "END OF HEADER");
    h
}
fn codes(n: usize, from: usize) -> Vec<&'static str> {
    (0..n).map(|i| CODES[(from + i) % 10]).collect()
}
fn at(i: usize) -> Epoch {
    match i {
        0 => Epoch::from_gregorian_utc(2022, 3, 4, 0, 0, 30, 0),
        _ => Epoch::from_gregorian_utc(2022, 3, 14, 12, 59, 5, 0),
    }
}
fn start(t: &mut Vec<u8>, v3: bool, i: usize) {
    t.extend_from_slice(match (v3, i) {
        (true, 0) => b" 2022  3  4  0  0 30" as &[u8],
        (true, _) => b" 2022  3 14 12 59  5",
        (false, 0) => b" 22  3  4  0  0 30",
        (false, _) => b" 22  3 14 12 59  5",
    });
}
fn count() -> usize {
    [1, 2, 3, 7, 8, 9, 10][choose(7)]
}
type Cell = (usize, Observable, f64);
fn verify(rnx: &Rinex, cells: &[Cell]) {
    let rec = rnx.record.as_meteo();
    check(rec.is_some(), "meteo record");
    let rec = rec.unwrap();
    observe(rec.len() as u64);
    check(rec.len() == cells.len(), "as many observations as spelled");
    for (i, o, v) in cells {
        match rec.get(&MeteoKey { epoch: at(*i), observable: o.clone() }) {
            Some(x) => {
                observe_f(*x);
                check(*x == *v, "value of its own column");
            }
            None => check(false, "observation found under its epoch and observable"),
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Known,
    Blank,
    Free,
}
/// writes one epoch. Modes by rank of the code
fn epoch(t: &mut Vec<u8>, cells: &mut Vec<Cell>, v3: bool, i: usize, codes: &[&str], modes: &[Mode], trim: bool, newline: bool) {
    start(t, v3, i);
    // what is written past the last present field can be dropped
    let last = modes.iter().rposition(|m| *m != Mode::Blank);
    for (n, c) in codes.iter().enumerate() {
        if trim {
            match last {
                Some(l) if n > l => break,
                None => break,
                _ => {}
            }
        }
        if n >= 8 && (n - 8) % 10 == 0 {
            t.extend_from_slice(b"\n    ");
        }
        match modes[n] {
            Mode::Blank => t.extend_from_slice(b"       "),
            Mode::Known => {
                let k = (i * 1000 + n * 37 + 14) as i64;
                t.extend_from_slice(format!("{:5}.{}", k / 10, k % 10).as_bytes());
                cells.push((i, ob(c), dec(k, 1)));
            }
            Mode::Free => {
                let (ni, nf, neg) = [(4, 1, true), (5, 1, false), (4, 1, false), (1, 1, true), (2, 2, false), (1, 3, true)][choose(if thorough() { 6 } else { 4 })];
                let v = decimal_field(t, 7, ni, nf, neg);
                cells.push((i, ob(c), v));
            }
        }
    }
    if newline {
        t.push(b'\n');
    }
}
/// any value in any of the fields, the other ones known or blank
#[no_mangle]
pub extern "C" fn c15_values() {
    let v3 = flip();
    let codes = codes(count(), choose(2) * 3);
    let mut t = header(v3, &codes);
    let mut cells = vec![];
    let others = if flip() { Mode::Known } else { Mode::Blank };
    let mut modes = vec![others; codes.len()];
    modes[choose(codes.len())] = Mode::Free;
    let first = flip();
    let all = vec![Mode::Known; codes.len()];
    let newline = flip();
    epoch(&mut t, &mut cells, v3, 0, &codes, if first { &modes } else { &all }, false, true);
    epoch(&mut t, &mut cells, v3, 1, &codes, if first { &all } else { &modes }, !newline, newline);
    match parse(&t) {
        Ok(r) => verify(&r, &cells),
        Err(_) => check(false, "parses"),
    }
    reach("parsed");
}
/// any subset of the fields present
#[no_mangle]
pub extern "C" fn c15_blanks() {
    let v3 = flip();
    let n = count();
    let codes = codes(n, 0);
    let mut t = header(v3, &codes);
    let mut cells = vec![];
    let trim = flip();
    // 10 fields: by runs, otherwise any subset
    let modes: Vec<Mode> = if n > 3 && !thorough() {
        let (a, b, inverse) = (choose(n), choose(n), flip());
        (0..n).map(|i| if ((i >= a) & (i <= b)) != inverse { Mode::Known } else { Mode::Blank }).collect()
    } else {
        (0..n).map(|_| if flip() { Mode::Known } else { Mode::Blank }).collect()
    };
    epoch(&mut t, &mut cells, v3, 0, &codes, &modes, trim, true);
    epoch(&mut t, &mut cells, v3, 1, &codes, &modes, trim, true);
    match parse(&t) {
        Ok(r) => verify(&r, &cells),
        Err(_) => check(false, "parses"),
    }
    reach("parsed");
}
fn round_trip(v3: bool, codes: &[&str], cells: &[Cell]) {
    let mut r = match parse(&header(v3, codes)) {
        Ok(r) => r,
        Err(_) => {
            check(false, "header parses");
            return;
        }
    };
    let mut rec = MeteoRecord::new();
    for (i, o, v) in cells {
        rec.insert(MeteoKey { epoch: at(*i), observable: o.clone() }, *v);
    }
    r.record = rinex::record::Record::MeteoRecord(rec);
    let t = format(&r);
    // no line is longer than the standard allows
    let mut n = 0;
    let mut long = false;
    for b in t.iter() {
        n = if *b == b'\n' { 0 } else { n + 1 };
        long |= n > 80;
    }
    check(!long, "lines of 80 columns");
    match parse(&t) {
        Ok(p) => {
            verify(&p, cells);
            match (&p.header.meteo, &r.header.meteo) {
                (Some(a), Some(b)) => check(a.codes == b.codes, "same observables"),
                _ => check(false, "meteo header"),
            }
        }
        Err(_) => check(false, "what was written parses"),
    }
    reach("written");
}
/// write then parse: any value in any of the fields
#[no_mangle]
pub extern "C" fn c15_write() {
    let v3 = flip();
    let codes = codes(count(), choose(2) * 3);
    let n = codes.len();
    let focus = choose(n);
    let (lo, hi) = [(-99_999, -10_000), (100_000, 999_999), (10_000, 99_999), (10, 99), (-99, -10), (0, 9)][choose(if thorough() { 6 } else { 4 })];
    let others = choose(3);
    let mut cells = vec![];
    let first = flip();
    for i in 0..2 {
        for (j, c) in codes.iter().enumerate() {
            if (j == focus) & ((i == 0) == first) {
                cells.push((i, ob(c), dec(int(lo, hi), 1)));
            } else if (others == 0) | ((others == 1) & (j % 2 == i)) | ((j == n - 1) & (i == 0)) {
                cells.push((i, ob(c), dec((i * 1000 + j * 37 + 14) as i64, 1)));
            }
        }
    }
    round_trip(v3, &codes, &cells);
}
/// write then parse: any subset of the fields present
#[no_mangle]
pub extern "C" fn c15_write_blanks() {
    let v3 = flip();
    let n = count();
    let codes = codes(n, 0);
    let mut cells = vec![];
    let (a, b, inverse) = (choose(n), choose(n), flip());
    for i in 0..2 {
        for (j, c) in codes.iter().enumerate() {
            let inside = (j >= a) & (j <= b);
            if (inside != inverse) | (i == 1) {
                cells.push((i, ob(c), dec((i * 1000 + j * 37 + 14) as i64, 1)));
            }
        }
    }
    round_trip(v3, &codes, &cells);
}
/// sensors: descriptions and positions survive write then parse
#[no_mangle]
pub extern "C" fn c15_sensors() {
    let codes = codes(3, choose(3));
    let mut r = match parse(&header(true, &codes)) {
        Ok(r) => r,
        Err(_) => {
            check(false, "header parses");
            return;
        }
    };
    let mut sensors = vec![];
    let focus = choose(3);
    for (i, c) in codes.iter().enumerate() {
        let mut s = rinex::meteo::Sensor::new(ob(c));
        if i == focus {
            // any two columns, blanks at the ends are not significant
            let mut m = b"MODEL 1".to_vec();
            match choose(4) {
                0 => {}
                1 => {
                    m[0] = byte_in(b'!', b'~');
                    m[5] = printable();
                    s = s.with_model(text(&m));
                }
                2 => {
                    m[0] = byte_in(b'!', b'~');
                    m[3] = printable();
                    s = s.with_type(text(&m));
                }
                _ => s = s.with_model("TWENTY COLUMNS MODEL").with_type("TWENTY COLUMNS TYPE."),
            }
            if flip() {
                s = s.with_accuracy(0.5);
            }
            match choose(3) {
                0 => {}
                1 => {
                    let k = |w: usize| if w == 0 { dec(int(10_000_000_000, 99_999_999_999), 4) } else { 1234567.8912 };
                    let w = choose(3);
                    s = s.with_position((k(w), k((w + 1) % 3), k((w + 2) % 3))).with_height(12.25);
                }
                _ => {
                    s = s.with_position((-1234567.8912, 0.0, 6378137.0)).with_height(dec(int(-99_999_999, -10_000_000), 4));
                }
            }
        } else if i > focus {
            s = s.with_model("PTU").with_accuracy(1.0);
        }
        sensors.push(s);
    }
    if let Some(m) = r.header.meteo.as_mut() {
        m.sensors = sensors.clone();
    }
    let t = format(&r);
    match parse(&t) {
        Ok(p) => match &p.header.meteo {
            Some(m) => {
                check(m.sensors.len() == sensors.len(), "every sensor");
                for (a, b) in m.sensors.iter().zip(sensors.iter()) {
                    check(a.observable == b.observable, "sensor's observable");
                    check(a.accuracy == b.accuracy, "sensor's accuracy");
                    check(a.position.is_some() == b.position.is_some(), "sensor located");
                    if let (Some(a), Some(b)) = (a.position, b.position) {
                        observe_f(a.0);
                        check((a.0 == b.0) & (a.1 == b.1) & (a.2 == b.2), "sensor's position");
                    }
                    check(a.height.is_some() == b.height.is_some(), "sensor's height known");
                    if let (Some(a), Some(b)) = (a.height, b.height) {
                        check(a == b, "sensor's height");
                    }
                    check(words(&a.model, &b.model), "sensor's model");
                    check(words(&a.sensor_type, &b.sensor_type), "sensor's type");
                }
            }
            None => check(false, "meteo header"),
        },
        Err(_) => check(false, "what was written parses"),
    }
    reach("written");
}
fn words(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => {
            observe_s(a);
            a.len() == b.len() && same(a.as_bytes(), b.as_bytes())
        }
        (None, None) => true,
        _ => false,
    }
}
