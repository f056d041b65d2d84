//! C22: DORIS measurements, by station and observable; station descriptions, both ways
use crate::util::*;
use rinex::doris::{DorisKey, Observations, SignalKey, Station};
use rinex::prelude::obs::EpochFlag;

const OBS: [&str; 10] = ["L1", "L2", "C1", "C2", "W1", "W2", "F", "P", "T", "H"];
/// stations, in header order; the numbers that tie them to the record are not their positions
const STATIONS: [(&str, &str, &str); 4] = [
    ("D03", "OWFC", "D03  OWFC OWENGA                        50253S002  3   0"),
    ("D01", "GRFB", "D01  GRFB GREENBELT                     40451S178  3   0"),
    ("D12", "SVBC", "D12  SVBC NY-ALESUND II                 10338S004  4   7"),
    ("D04", "THUB", "D04  THUB THULE                         43001S005  3 -12"),
];
fn header(n: usize, stations: &[usize]) -> Vec<u8> {
    let mut t = vec![];
    hl(&mut t, "     3.00           O                   D", "RINEX VERSION / TYPE");
    hl(&mut t, "JASON-3", "SATELLITE NAME");
    let mut l = format!("D {:4}", n);
    for o in &OBS[..n] {
        l.push_str(&format!(" {:<3}", o));
    }
    hl(&mut t, &l, "SYS / # / OBS TYPES");
    hl(&mut t, &format!("{:6}", stations.len()), "# OF STATIONS");
    for s in stations {
        hl(&mut t, STATIONS[*s].2, "STATION REFERENCE");
    }
    hl(&mut t, "", "END OF HEADER");
    t
}
/// one field of the record: value (if any) and the two flags (if any)
#[derive(Clone)]
struct Field {
    value: Option<f64>,
    m1: Option<u8>,
    m2: Option<u8>,
}
fn fixed(t: &mut Vec<u8>, e: usize, s: usize, o: usize) -> Field {
    let k = 1_000_001 + 1_000_000 * e as i64 + 10_000 * s as i64 + 101 * o as i64;
    let txt = format!("{:>14}", format!("{}.{:03}", k / 1000, k % 1000));
    t.extend_from_slice(txt.as_bytes());
    let m1 = if o % 2 == 0 { Some((o % 9) as u8 + 1) } else { None };
    let m2 = if o % 3 == 0 { Some((s % 9) as u8 + 1) } else { None };
    flag(t, m1.map(|m| m + b'0'));
    flag(t, m2.map(|m| m + b'0'));
    Field { value: Some(dec(k, 3)), m1, m2 }
}
fn flag(t: &mut Vec<u8>, f: Option<u8>) {
    t.push(f.unwrap_or(b' '))
}
fn any_flag(t: &mut Vec<u8>) -> Option<u8> {
    if flip() {
        let d = digit();
        t.push(d);
        Some(d - b'0')
    } else {
        t.push(b' ');
        None
    }
}
fn free(t: &mut Vec<u8>) -> Field {
    match choose(4) {
        0 => {
            t.extend_from_slice(&[b' '; 16]);
            Field { value: None, m1: None, m2: None }
        }
        1 => {
            let v = decimal_field(t, 14, 10, 3, false);
            let m1 = any_flag(t);
            let m2 = any_flag(t);
            Field { value: Some(v), m1, m2 }
        }
        n => {
            let v = if n == 2 { decimal_field(t, 14, 9, 3, true) } else { decimal_field(t, 14, 1, 3, flip()) };
            t.extend_from_slice(b"  ");
            Field { value: Some(v), m1: None, m2: None }
        }
    }
}
fn at(i: usize) -> Epoch {
    match i {
        0 => Epoch::from_gregorian(2024, 1, 1, 0, 0, 28, 999_947_700, TimeScale::TAI),
        _ => Epoch::from_gregorian(2024, 1, 1, 0, 0, 38, 999_947_700, TimeScale::TAI),
    }
}
/// several epochs; one field free
fn record(n: usize) {
    // stations declared, order in which they are seen, trailing blanks dropped
    let all = [0usize, 1, 2, 3];
    let layouts: [(&[usize], &[usize], bool); 8] = [
        (&all, &all, false),
        (&all, &all, true),
        (&all, &[3, 2, 1, 0], true),
        (&all, &[2, 0], false),
        (&[2, 1], &[1, 2], true),
        (&[0, 3, 1], &[1], false),
        (&[0, 3, 1], &[3, 0], true),
        (&[3], &[3], true),
    ];
    let (stations, seen, trim) = layouts[choose(8)];
    let (fe, fo) = if thorough() {
        (choose(2), choose(n))
    } else {
        // first, middle, last
        (0, match choose(if n > 2 { 3 } else { n }) {
            0 => 0,
            1 => n - 1,
            _ => n / 2,
        })
    };
    let fs = seen[choose(seen.len())];
    let mut t = header(n, stations);
    let mut cells = vec![];
    for e in 0..2 {
        t.extend_from_slice(if e == 0 { b"> 2024 01 01 00 00 28.999947700  0" as &[u8] } else { b"> 2024 01 01 00 00 38.999947700  0" });
        t.extend_from_slice(format!("{:3}       -4.326631626 0 \n", seen.len()).as_bytes());
        for s in seen {
            t.extend_from_slice(STATIONS[*s].0.as_bytes());
            for o in 0..n {
                if o > 0 && o % 5 == 0 {
                    if trim {
                        trim_end(&mut t);
                    }
                    t.extend_from_slice(b"\n   ");
                }
                let f = if (e, *s, o) == (fe, fs, fo) { free(&mut t) } else { fixed(&mut t, e, *s, o) };
                cells.push((e, *s, o, f));
            }
            if trim {
                trim_end(&mut t);
            }
            t.push(b'\n');
        }
    }
    match parse(&t) {
        Ok(r) => {
            let (h, rec) = (r.header.doris.as_ref().unwrap(), r.record.as_doris().unwrap());
            check(h.observables.len() == n, "observables");
            check(rec.len() == 2, "epochs");
            let mut by_epoch = [0usize; 2];
            for (e, s, o, f) in &cells {
                let st = h.stations.iter().find(|x| x.label == STATIONS[*s].1);
                check(st.is_some(), "station declared");
                let (st, key) = (st.unwrap(), DorisKey { epoch: at(*e), flag: EpochFlag::Ok });
                let got = rec.get(&key);
                check(got.is_some(), "epoch");
                let got = got.unwrap();
                check(got.clock.offset_s == dec(-4_326_631_626, 9), "clock");
                check(!got.clock_extrapolated, "clock measured");
                match (got.signals.get(&SignalKey { station: st.clone(), observable: ob(OBS[*o]) }), &f.value) {
                    (Some(x), Some(v)) => {
                        by_epoch[*e] += 1;
                        check(x.value == *v, "value");
                        check(same_flag(x.m1, f.m1), "m1");
                        check(same_flag(x.m2, f.m2), "m2");
                    }
                    (None, None) => {}
                    (a, _) => check(false, if a.is_some() { "nothing there" } else { "measurement found" }),
                }
            }
            for e in 0..2 {
                check(rec.get(&DorisKey { epoch: at(e), flag: EpochFlag::Ok }).unwrap().signals.len() == by_epoch[e], "no other measurement");
            }
        }
        Err(_) => check(false, "parses"),
    }
    reach("compared");
}
fn same_flag(a: Option<u8>, b: Option<u8>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a == b,
        (None, None) => true,
        _ => false,
    }
}
/// drop trailing blanks
fn trim_end(t: &mut Vec<u8>) {
    while t.last() == Some(&b' ') {
        t.pop();
    }
}
#[no_mangle]
pub extern "C" fn c22_short() {
    record([1, 2, 4, 5][choose(4)])
}
#[no_mangle]
pub extern "C" fn c22_long() {
    record([6, 9, 10][choose(3)])
}
/// the epoch line: flag, clock offset and whether it is extrapolated
#[no_mangle]
pub extern "C" fn c22_epoch() {
    let flags = [EpochFlag::Ok, EpochFlag::PowerFailure, EpochFlag::AntennaBeingMoved, EpochFlag::NewSiteOccupation, EpochFlag::HeaderInformationFollows, EpochFlag::ExternalEvent, EpochFlag::CycleSlip];
    let f = choose(7);
    let mut t = header(2, &[0, 1]);
    t.extend_from_slice(b"> 2024 01 01 00 00 28.999947700  ");
    t.push(b'0' + f as u8);
    t.extend_from_slice(b"  1");
    let clock = match choose(4) {
        0 => None,
        1 => Some(decimal_field(&mut t, 19, 1, 9, false)),
        2 => Some(decimal_field(&mut t, 19, 3, 9, true)),
        _ => Some(decimal_field(&mut t, 19, 1, 9, true)),
    };
    let mut extrapolated = false;
    if clock.is_some() {
        t.push(b' ');
        let c = byte_of(b"01 ");
        extrapolated = c == b'1';
        t.push(c);
        if flip() {
            t.push(b' ');
        }
    }
    t.extend_from_slice(b"\nD01  12345678.123 1  -1234567.890  \n");
    match parse(&t) {
        Ok(r) => {
            let rec = r.record.as_doris().unwrap();
            check(rec.len() == 1, "one epoch");
            let none = Observations::default();
            let got = rec.get(&DorisKey { epoch: at(0), flag: flags[f] });
            check(got.is_some(), "epoch and flag");
            let got = got.unwrap_or(&none);
            check(got.clock.offset_s == clock.unwrap_or(0.0), "clock offset");
            check(got.clock_extrapolated == extrapolated, "extrapolated");
            check(got.signals.len() == 2, "measurements");
        }
        Err(_) => check(false, "parses"),
    }
    reach("compared");
}
fn word(n: usize, inner: bool) -> Vec<u8> {
    // (no blank at its ends)
    (0..n).map(|i| if inner && i > 0 && i + 1 < n { printable() } else { byte_in(b'!', b'~') }).collect()
}
/// description -> text -> description and text -> description -> text
#[no_mangle]
pub extern "C" fn c22_station() {
    let ns = [1, 2, 11, 28, 29][choose(5)];
    let nl = [4, 1, 3][choose(3)];
    let key: Vec<u8> = if flip() { vec![b'0', byte_in(b'0', b'9')] } else { vec![byte_in(b'1', b'9'), digit()] };
    let label = word(nl, false);
    let site = word(ns, true);
    let domes = [digit(), digit(), digit(), digit(), digit(), byte_of(b"MS"), digit(), digit(), digit()];
    let gen: Vec<u8> = if flip() { vec![b' ', digit()] } else { vec![byte_in(b'1', b'9'), digit()] };
    let kf: Vec<u8> = match choose(4) {
        0 => vec![b' ', b' ', digit()],
        1 => vec![b' ', b'-', byte_in(b'1', b'9')],
        2 => vec![b'-', byte_in(b'1', b'9'), digit()],
        _ => vec![b' ', byte_in(b'1', b'9'), digit()],
    };
    let mut t = vec![b'D'];
    t.extend_from_slice(&key);
    t.extend_from_slice(b"  ");
    t.extend_from_slice(&label);
    t.resize(10, b' ');
    t.extend_from_slice(&site);
    t.resize(40, b' ');
    t.extend_from_slice(&domes);
    t.push(b' ');
    t.extend_from_slice(&gen);
    t.push(b' ');
    t.extend_from_slice(&kf);
    let s = unsafe { std::str::from_utf8_unchecked(&t) };
    match Station::from_str(s) {
        Ok(st) => {
            check(st.label.as_bytes() == &label[..], "label");
            check(st.site.as_bytes() == &site[..], "site");
            let d = DOMES {
                area: num(&domes[..3]) as u16,
                site: num(&domes[3..5]) as u8,
                point: if fork(domes[5] == b'M') { DOMESTrackingPoint::Monument } else { DOMESTrackingPoint::Instrument },
                sequential: num(&domes[6..]) as u16,
            };
            check(st.domes.area == d.area && st.domes.site == d.site && st.domes.sequential == d.sequential && st.domes.point == d.point, "domes");
            let txt = st.to_string();
            check(txt.as_bytes() == &t[..], "same text");
            match Station::from_str(&txt) {
                Ok(b) => check(b.gen == st.gen && b.k_factor == st.k_factor && b.domes == st.domes && b.label == st.label && b.site == st.site, "same description"),
                Err(_) => check(false, "parses again"),
            }
        }
        Err(_) => check(false, "parses"),
    }
    reach("compared");
}
