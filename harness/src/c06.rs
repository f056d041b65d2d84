//! C06: each observation is read from its own columns
use crate::util::*;
use rinex::observation::{LliFlags, SNR};

fn header_v3() -> Vec<u8> {
    let mut h = vec![];
    hl(&mut h, "     3.03           OBSERVATION DATA    M: Mixed", "RINEX VERSION / TYPE");
    hl(&mut h, "G    3 C1C L1C S1C", "SYS / # / OBS TYPES");
    hl(&mut h, "E    2 L1C C1C", "SYS / # / OBS TYPES");
    hl(&mut h, "S    1 D1C", "SYS / # / OBS TYPES");
    hl(&mut h, "  2022    03    04    00    00    0.0000000     GPS", "TIME OF FIRST OBS");
    hl(&mut h, "", "END OF HEADER");
    h
}

/// expected content of one (satellite, observable) cell
struct Cell {
    sv: SV,
    ob: Observable,
    value: f64,
    lli: u8,
    snr: u8,
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// blank field
    Absent,
    /// known content
    Known,
    /// absent or known
    Either,
    /// everything inside the field is free
    Free,
}

/// value(14) lli(1) snr(1); `cut`: may the line end with this field's value;
/// `pad`: does a blank last field still occupy its columns
fn field(t: &mut Vec<u8>, cells: &mut Vec<Cell>, sv: SV, ob: Observable, mode: Mode, last: bool, pad: bool) {
    let absent = match mode {
        Mode::Absent => true,
        Mode::Known => false,
        Mode::Either => flip(),
        Mode::Free => {
            free_field(t, cells, sv, ob, last);
            return;
        }
    };
    if absent {
        if !last | pad {
            t.extend_from_slice(b"                ");
        }
    } else {
        t.extend_from_slice(b"  12345678.91237");
        cells.push(Cell { sv, ob, value: 12345678.912, lli: b'3', snr: b'7' });
    }
}

fn free_field(t: &mut Vec<u8>, cells: &mut Vec<Cell>, sv: SV, ob: Observable, last: bool) {
    let shape = choose(if thorough() { 7 } else { 5 });
    let (ni, neg) = match shape {
        1 => (10, false),
        2 => (9, true),
        3 => (1, true),
        4 => (1, false),
        5 => (4, false),
        6 => (7, true),
        _ => {
            // blank value, flags whatever they are
            t.extend_from_slice(b"              ");
            t.push(byte_of(b" 01234567"));
            t.push(byte_of(b" 0123456789"));
            return;
        }
    };
    let value = decimal_field(t, 14, ni, 3, neg);
    // trailing flags may be cut at the end of the line
    let cut = if last { choose(3) } else { 0 };
    let mut lli = b' ';
    let mut snr = b' ';
    if cut < 2 {
        lli = byte_of(b" 01234567");
        t.push(lli);
    }
    if cut < 1 {
        snr = byte_of(b" 0123456789");
        t.push(snr);
    }
    cells.push(Cell { sv, ob, value, lli, snr });
}

fn verify(rnx: &Rinex, cells: &[Cell]) {
    let rec = rnx.record.as_obs();
    check(rec.is_some(), "observation record");
    let rec = rec.unwrap();
    check(rec.len() == 1, "one epoch");
    for (_, o) in rec.iter() {
        observe(o.signals.len() as u64);
        check(o.signals.len() == cells.len(), "number of signals");
        for c in cells {
            let mut n = 0;
            for s in o.signals.iter() {
                if s.sv == c.sv && s.observable == c.ob {
                    n += 1;
                    check(s.value == c.value, "value spelled by its columns");
                    observe_f(s.value);
                    match s.lli {
                        Some(l) => check((l.bits() == c.lli.wrapping_sub(b'0')) & (c.lli != b' '), "LLI column"),
                        None => check(c.lli == b' ', "LLI column blank"),
                    }
                    match s.snr {
                        Some(v) => check(v == SNR::from(c.snr.wrapping_sub(b'0')) && c.snr != b' ', "SNR column"),
                        None => check(c.snr == b' ', "SNR column blank"),
                    }
                }
            }
            check(n == 1, "signal present once");
        }
    }
    let _ = LliFlags::empty();
}

#[no_mangle]
pub extern "C" fn c06_v3() {
    let mut t = header_v3();
    let mut cells = vec![];
    t.extend_from_slice(b"> 2022 03 04 00 00  0.0000000  0  3\n");
    let focus = choose(7);
    let rest = if focus == 6 {
        Mode::Either
    } else if flip() {
        Mode::Absent
    } else {
        Mode::Known
    };
    let mut k = 0;
    for (name, obs) in [("G07", &["C1C", "L1C", "S1C"][..]), ("E31", &["L1C", "C1C"][..]), ("S23", &["D1C"][..])] {
        t.extend_from_slice(name.as_bytes());
        for (i, o) in obs.iter().enumerate() {
            let m = if k == focus { Mode::Free } else { rest };
            field(&mut t, &mut cells, sv(name), ob(o), m, i + 1 == obs.len(), false);
            k += 1;
        }
        t.push(b'\n');
    }
    match parse(&t) {
        Ok(r) => verify(&r, &cells),
        Err(_) => check(false, "parses"),
    }
    reach("end");
}

fn header_v2(nobs: usize, mixed: bool) -> Vec<u8> {
    let mut h = vec![];
    hl(&mut h, if mixed { "     2.11           OBSERVATION DATA    M (MIXED)" } else { "     2.11           OBSERVATION DATA    G (GPS)" }, "RINEX VERSION / TYPE");
    let mut l = format!("{:6}", nobs);
    for o in &OBS2[..nobs] {
        l.push_str("    ");
        l.push_str(o);
    }
    hl(&mut h, &l, "# / TYPES OF OBSERV");
    hl(&mut h, "  2022    03    04    00    00    0.0000000     GPS", "TIME OF FIRST OBS");
    hl(&mut h, "", "END OF HEADER");
    h
}
const OBS2: [&str; 7] = ["L1", "L2", "C1", "P2", "P1", "S1", "S2"];

fn v2(nobs: usize, mixed: bool) {
    let mut t = header_v2(nobs, mixed);
    let mut cells = vec![];
    let names: [&str; 2] = if mixed { ["G07", "E31"] } else { ["G07", "G31"] };
    let focus = choose(2 * nobs + 2);
    let rest = if focus >= 2 * nobs || flip() { Mode::Known } else { Mode::Absent };
    t.extend_from_slice(b" 22  3  4  0  0  0.0000000  0  2");
    t.extend_from_slice(names[0].as_bytes());
    t.extend_from_slice(names[1].as_bytes());
    t.push(b'\n');
    let mut k = 0;
    for (n, name) in names.iter().enumerate() {
        for i in 0..nobs {
            let last = i + 1 == nobs || i % 5 == 4;
            let m = if k == focus {
                Mode::Free
            } else if focus == 2 * nobs + n {
                Mode::Either
            } else {
                rest
            };
            field(&mut t, &mut cells, sv(name), ob(OBS2[i]), m, last, true);
            if last {
                t.push(b'\n');
            }
            k += 1;
        }
    }
    match parse(&t) {
        Ok(r) => verify(&r, &cells),
        Err(_) => check(false, "parses"),
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c06_v2_3() {
    v2(3, false)
}
#[no_mangle]
pub extern "C" fn c06_v2_5() {
    v2(5, true)
}
/// two lines per satellite
#[no_mangle]
pub extern "C" fn c06_v2_6() {
    v2(6, false)
}

/// satellite lists of 1 to 26 satellites (wrapping over several lines), one observable each
#[no_mangle]
pub extern "C" fn c06_v2_sats() {
    let mut t = header_v2(1, false);
    let n = 1 + choose(26);
    let blank_system = flip();
    let focus = match choose(4) {
        0 => 0,
        1 => n - 1,
        2 => (n - 1).min(11),
        _ => (n - 1).min(12),
    };
    let mut cells = vec![];
    t.extend_from_slice(format!(" 22  3  4  0  0  0.0000000  0{:3}", n).as_bytes());
    for i in 0..n {
        if i > 0 && i % 12 == 0 {
            t.extend_from_slice(b"\n                                ");
        }
        t.push(if blank_system { b' ' } else { b'G' });
        t.extend_from_slice(format!("{:2}", i + 1).as_bytes());
    }
    t.push(b'\n');
    for i in 0..n {
        let s = SV { prn: i as u8 + 1, constellation: Constellation::GPS };
        let (value, lli, snr);
        if i == focus {
            value = decimal_field(&mut t, 14, 8, 3, false);
            lli = byte_of(b" 01234567");
            snr = byte_of(b" 0123456789");
        } else {
            t.extend_from_slice(format!("  123456{:02}.125", i).as_bytes());
            value = 12345600.125 + i as f64;
            lli = b'1';
            snr = b'0' + i as u8 % 10;
        }
        t.push(lli);
        t.push(snr);
        t.push(b'\n');
        cells.push(Cell { sv: s, ob: ob("L1"), value, lli, snr });
    }
    match parse(&t) {
        Ok(r) => verify(&r, &cells),
        Err(_) => check(false, "parses"),
    }
    reach("end");
}

/// known finding: trailing observables omitted on a vehicle's last line
#[no_mangle]
pub extern "C" fn c06_kf_truncated() {
    let mut t = header_v2(3, false);
    let mut cells = vec![];
    t.extend_from_slice(b" 22  3  4  0  0  0.0000000  0  2G07G31\n");
    for name in ["G07", "G31"] {
        for i in 0..2 {
            field(&mut t, &mut cells, sv(name), ob(OBS2[i]), Mode::Known, false, true);
        }
        t.push(b'\n');
    }
    match parse(&t) {
        Ok(r) => verify(&r, &cells),
        Err(_) => check(false, "parses"),
    }
    reach("end");
}
