//! C17: broadcast ephemeris fields are read from their own columns
use crate::util::*;
use rinex::navigation::{GeoHealth, GloHealth, Health, KbRegionCode, NavFrameType, NavKey, NavMessageType, OrbitItem};

/// the fields of each frame in the order of the standard ("-": spare)
const GPS: &str = "iode crs deltaN m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot l2Codes week:u l2pDataFlag svAccuracy health:h tgd iodc t_tm fitInt - -";
const QZS: &str = "iode crs deltaN m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot l2Codes week:u l2pDataFlag svAccuracy health tgd iodc t_tm fitInt - -";
const GLO: &str = "satPosX velX accelX health:g satPosY velY accelY channel:i satPosZ velZ accelZ ageOp";
const GLO4: &str = "satPosX velX accelX health:g satPosY velY accelY channel:i satPosZ velZ accelZ ageOp status:s L1L2GrpDelay urai almanacHealth:g";
const GAL: &str = "iodnav crs deltaN m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot dataSrc week:u - sisa health:e bgdE5aE1 bgdE5bE1 t_tm - - -";
const BDS3: &str = "aode crs deltaN m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot - week:u - svAccuracy satH1 tgd1b1b3 tgd2b2b3 t_tm aodc - -";
const BDS4: &str = "aode crs deltaN m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot - week:u - svAccuracy satH1 tgdb1b3 tgdb2b3 t_tm aodc - -";
const GEO: &str = "satPosX velX accelX health:a satPosY velY accelY accuracyCode satPosZ velZ accelZ iodn";
const CNAV: &str = "adot crs deltaN0 m0 cuc e cus sqrta t_op cic omega0 cis i0 crc omega omegaDot idot deltaN0Dot uraiNed0 uraiNed1 uraiEd svHealth tgd uraiNed2 iscL1Ca iscL2C iscL5I5 iscL5Q5 t_tm wn_op - -";
const CNV2: &str = "adot crs deltaN0 m0 cuc e cus sqrta t_op cic omega0 cis i0 crc omega omegaDot idot deltaN0Dot uraiNed0 uraiNed1 uraiEd svHealth tgd uraiNed2 iscL1Ca iscL2C iscL5I5 iscL5Q5 iscL1Cd iscL1Cp - - t_tm wn_op - -";
const BCNV1: &str = "adot crs deltaN0 m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot deltaN0Dot satType t_op sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2 iscB1Cd - tgdB1Cp tgdB2ap sismai health integrityB1C iodc t_tm - - iode";
const BCNV2: &str = "adot crs deltaN0 m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot deltaN0Dot satType t_op sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2 - iscB2ad tgdB1Cp tgdB2ap sismai health integrityB2aB1C iodc t_tm - - iode";
const BCNV3: &str = "adot crs deltaN0 m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot deltaN0Dot satType t_op sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2 sismai health integrityB2b tgdB2bI t_tm - - -";

#[derive(Clone, Copy)]
enum What {
    Text(bool, [u8; 13], i32), // sign, digits of the mantissa, exponent
    Int(i64),                  // a one digit integer, or 1000 to 9999
    Blank,
}
struct Frame {
    v: u8,
    sat: &'static str,
    other: &'static str,
    msg: &'static str,
    fields: &'static str,
}
const V2: [Frame; 2] = [
    Frame { v: 2, sat: "G07", other: "G31", msg: "LNAV", fields: GPS },
    Frame { v: 2, sat: "R07", other: "R21", msg: "LNAV", fields: GLO },
];
const V3: [Frame; 6] = [
    Frame { v: 3, sat: "G07", other: "R21", msg: "LNAV", fields: GPS },
    Frame { v: 3, sat: "R07", other: "G21", msg: "LNAV", fields: GLO },
    Frame { v: 3, sat: "E07", other: "C21", msg: "LNAV", fields: GAL },
    Frame { v: 3, sat: "J07", other: "S21", msg: "LNAV", fields: QZS },
    Frame { v: 3, sat: "C07", other: "E21", msg: "LNAV", fields: BDS3 },
    Frame { v: 3, sat: "S36", other: "J02", msg: "LNAV", fields: GEO },
];
const V4: [Frame; 15] = [
    Frame { v: 4, sat: "G07", other: "R21", msg: "LNAV", fields: GPS },
    Frame { v: 4, sat: "G07", other: "R21", msg: "CNAV", fields: CNAV },
    Frame { v: 4, sat: "G07", other: "R21", msg: "CNV2", fields: CNV2 },
    Frame { v: 4, sat: "R07", other: "G21", msg: "FDMA", fields: GLO4 },
    Frame { v: 4, sat: "E07", other: "G21", msg: "INAV", fields: GAL },
    Frame { v: 4, sat: "E07", other: "G21", msg: "FNAV", fields: GAL },
    Frame { v: 4, sat: "J02", other: "G21", msg: "LNAV", fields: QZS },
    Frame { v: 4, sat: "J02", other: "G21", msg: "CNAV", fields: CNAV },
    Frame { v: 4, sat: "J02", other: "G21", msg: "CNV2", fields: CNV2 },
    Frame { v: 4, sat: "C07", other: "G21", msg: "D1", fields: BDS4 },
    Frame { v: 4, sat: "C07", other: "G21", msg: "D2", fields: BDS4 },
    Frame { v: 4, sat: "C20", other: "G21", msg: "CNV1", fields: BCNV1 },
    Frame { v: 4, sat: "C20", other: "G21", msg: "CNV2", fields: BCNV2 },
    Frame { v: 4, sat: "C20", other: "G21", msg: "CNV3", fields: BCNV3 },
    Frame { v: 4, sat: "S36", other: "G21", msg: "SBAS", fields: GEO },
];

/// one field of 19 columns
fn put(out: &mut Vec<u8>, w: What, letter: u8) {
    match w {
        What::Blank => out.extend_from_slice(b"                   "),
        What::Text(neg, d, e) => mantissa(out, neg, &d, e, letter),
        What::Int(i) => {
            let neg = i < 0;
            let (d, e) = small(if neg { -i } else { i });
            mantissa(out, neg, &d, e, letter)
        }
    }
}
/// d.000E+00 or d.ddE+02, right filled with zeros
fn small(i: i64) -> ([u8; 13], i32) {
    let mut d = [b'0'; 13];
    if i < 10 {
        d[0] += i as u8;
        return (d, 0);
    }
    let e = if i < 100 { 1 } else if i < 1000 { 2 } else { 3 };
    let mut p = [1, 10, 100, 1000][e];
    for j in 0..=e {
        d[j] += (i / p % 10) as u8;
        p /= 10;
    }
    (d, e as i32)
}
fn mantissa(out: &mut Vec<u8>, neg: bool, d: &[u8], e: i32, letter: u8) {
    out.push(if neg { b'-' } else { b' ' });
    out.push(d[0]);
    out.push(b'.');
    out.extend_from_slice(&d[1..]);
    out.push(letter);
    out.push(if e < 0 { b'-' } else { b'+' });
    let e = if e < 0 { -e } else { e } as u8;
    out.push(b'0' + e / 10);
    out.push(b'0' + e % 10);
}
fn text_of(k: i64, e: i32) -> What {
    let mut d = [b'0'; 13];
    let (neg, mut a) = (k < 0, if k < 0 { -k } else { k });
    for j in 0..13 {
        d[12 - j] += (a % 10) as u8;
        a /= 10;
    }
    What::Text(neg, d, e)
}
fn value(w: What) -> f64 {
    match w {
        What::Text(neg, d, e) => {
            let k = num(&d);
            dec(if neg { -k } else { k }, (12 - e) as u32)
        }
        What::Int(i) => i as f64,
        What::Blank => 0.0,
    }
}
fn known(i: usize) -> What {
    text_of(1_234_500_000_000 + 1_000_000 * (i as i64 + 1), if i % 2 == 0 { -3 } else { 2 })
}
/// a concrete value for a field of that kind
fn plain(kind: &str, i: usize) -> What {
    match kind {
        "u" => What::Int(2138),
        "i" => What::Int(-4),
        "h" => What::Int(5),
        "g" => What::Int(4),
        "e" => What::Int(9),
        "a" => What::Int(8),
        "s" => What::Int(0x20),
        _ => known(i),
    }
}
/// any value a field of that kind may spell, but zero (that the library documents as unresolved)
fn free(kind: &str, i: usize) -> What {
    let n = match kind {
        "u" => {
            let d = [digit(), digit(), digit(), digit()];
            assume((d[0] != b'0') & (d[1] != b'0'));
            let mut t = [b'0'; 13];
            t[..4].copy_from_slice(&d);
            return What::Text(false, t, 3);
        }
        "i" => [-7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 10, 13][choose(15)],
        "h" => 1 + choose(7) as i64,
        "g" => 4,
        "e" => [1, 2, 4, 8, 16, 32, 64, 128, 9, 73, 255][choose(11)],
        "a" => 8,
        "s" => [1, 2, 3, 4, 6, 7, 8, 16, 32, 64][choose(10)],
        _ => {
            let mut d = [0; 13];
            for b in d.iter_mut() {
                *b = digit();
            }
            // zero is documented as unresolved
            assume(d[5] != b'0');
            return What::Text(i % 3 == 1, d, [-9, 4, -1, 0, -12][i % 5]);
        }
    };
    What::Int(n)
}
fn epoch_text(f: &Frame, sat: &str, out: &mut Vec<u8>) {
    if f.v == 4 {
        out.extend_from_slice(b"> EPH ");
        out.extend_from_slice(sat.as_bytes());
        out.push(b' ');
        out.extend_from_slice(f.msg.as_bytes());
        out.push(b'\n');
    }
    if f.v == 2 {
        out.push(if &sat[1..2] == "0" { b' ' } else { sat.as_bytes()[1] });
        out.push(sat.as_bytes()[2]);
        out.extend_from_slice(b" 21  1  2 10 15  0.0");
    } else {
        out.extend_from_slice(sat.as_bytes());
        out.extend_from_slice(b" 2021 01 02 10 15 00");
    }
}
/// how blanks at the end of lines are dealt with
#[derive(Clone, Copy, PartialEq)]
enum Ends {
    Kept,
    Trimmed,
    Padded,
}
/// one frame; returns the offset of the end
fn frame(f: &Frame, sat: &str, out: &mut Vec<u8>, clock: [What; 3], vals: &[What], letter: u8, ends: Ends) {
    epoch_text(f, sat, out);
    for c in clock {
        put(out, c, letter);
    }
    let mut last = 0;
    for (i, v) in vals.iter().enumerate() {
        if i % 4 == 0 {
            finish(out, last, ends, i > 0);
            last = out.len();
            out.extend_from_slice(if f.v == 2 { b"   " } else { b"    " });
        }
        put(out, *v, letter);
    }
    finish(out, last, ends, true);
}
fn finish(out: &mut Vec<u8>, start: usize, ends: Ends, orbit: bool) {
    if orbit {
        match ends {
            Ends::Kept => (),
            Ends::Trimmed => {
                // concrete test: a blank field is one of ours
                while out.len() > start && out[out.len() - 19..] == *b"                   " {
                    let n = out.len() - 19;
                    out.truncate(n);
                }
            }
            Ends::Padded => {
                while out.len() < start + 82 {
                    out.push(b' ');
                }
            }
        }
    }
    out.push(b'\n');
}
fn header(f: &Frame) -> Vec<u8> {
    let mut h = vec![];
    let l = match (f.v, &f.sat[..1]) {
        (2, "G") => "     2.11           N: GPS NAV DATA",
        (2, _) => "     2.11           G: GLONASS NAV DATA",
        (3, _) => "     3.04           N: GNSS NAV DATA    M: MIXED",
        _ => "     4.00           N: GNSS NAV DATA    M: MIXED",
    };
    hl(&mut h, l, "RINEX VERSION / TYPE");
    hl(&mut h, "", "END OF HEADER");
    h
}
fn item(e: &OrbitItem, kind: &str, w: What) -> bool {
    match (kind, w, e) {
        ("u", What::Int(n), OrbitItem::U32(v)) => *v as i64 == n,
        ("u", What::Text(_, d, 3), OrbitItem::U32(v)) => *v as i64 == num(&d[..4]),
        ("i", What::Int(n), OrbitItem::I8(v)) => *v as i64 == n,
        ("h", What::Int(n), OrbitItem::Health(v)) => {
            let t = [Health::Unhealthy, Health::L1Healthy, Health::L2Healthy, Health::L1L2Healthy, Health::L5Healthy, Health::L1L5Healthy, Health::L2L5Healthy, Health::L1L2L5Healthy];
            for i in 0..8 {
                if *v == t[i] {
                    return n == i as i64;
                }
            }
            false
        }
        ("g", What::Int(n), OrbitItem::GloHealth(v)) => n == 4 && *v == GloHealth::Unhealthy,
        ("e", What::Int(n), OrbitItem::GalHealth(v)) => n == v.bits() as i64,
        ("a", What::Int(n), OrbitItem::GeoHealth(v)) => n == 8 && *v == GeoHealth::Reserved,
        ("s", What::Int(n), OrbitItem::GloStatus(v)) => n == v.bits() as i64,
        ("", w, OrbitItem::F64(v)) => {
            observe_f(*v);
            *v == value(w)
        }
        _ => false,
    }
}
fn constellation_ts(s: &str) -> TimeScale {
    match &s[..1] {
        "G" | "S" => TimeScale::GPST,
        "R" => TimeScale::UTC,
        "E" => TimeScale::GST,
        "C" => TimeScale::BDT,
        _ => TimeScale::QZSST,
    }
}
fn verify(r: &Rinex, f: &Frame, sat: &str, clock: [What; 3], vals: &[What], fields: &[(&str, &str)]) {
    let key = NavKey {
        epoch: Epoch::from_gregorian(2021, 1, 2, 10, 15, 0, 0, constellation_ts(sat)),
        sv: sv(sat),
        msgtype: NavMessageType::from_str(f.msg).unwrap(),
        frmtype: NavFrameType::Ephemeris,
    };
    let rec = match r.record.as_nav() {
        Some(r) => r,
        None => return check(false, "navigation record"),
    };
    let eph = match rec.get(&key).and_then(|f| f.as_ephemeris()) {
        Some(e) => e,
        None => return check(false, "ephemeris of that satellite and time"),
    };
    check(eph.clock_bias == value(clock[0]), "clock bias");
    check(eph.clock_drift == value(clock[1]), "clock drift");
    let mut n = 0;
    if &sat[..1] != "S" {
        check(eph.clock_drift_rate == value(clock[2]), "clock drift rate");
    } else {
        n += 1;
    }
    for (i, (name, kind)) in fields.iter().enumerate() {
        if *name == "-" {
            continue;
        }
        match (vals[i], eph.orbits.get(*name)) {
            (What::Blank, None) => (),
            (What::Blank, Some(_)) => check(false, "blank field yields no parameter"),
            (_, None) => check(false, "parameter is there"),
            (w, Some(e)) => {
                n += 1;
                check(item(e, kind, w), "parameter is what its columns spell");
            }
        }
    }
    check(eph.orbits.len() == n, "no other parameter");
}
fn run(frames: &'static [Frame], which: usize) {
    let f = &frames[choose(frames.len())];
    let fields: Vec<(&str, &str)> = f.fields.split(' ').map(|s| s.split_once(':').unwrap_or((s, ""))).collect();
    let letter = if f.v == 2 { b'D' } else if f.v == 3 { b'E' } else { b'e' };
    let mut clock = [text_of(-2_666_609_361_768, -4), text_of(2_728_484_105_319, -12), text_of(1_500_000_000_000, -2)];
    let mut vals: Vec<What> = vec![];
    for (i, (n, k)) in fields.iter().enumerate() {
        vals.push(if *n == "-" { What::Blank } else { plain(k, i) });
    }
    let other = vals.clone();
    let oclock = clock;
    let mut ends = Ends::Kept;
    let mut letter2 = letter;
    match which {
        // one free field
        0 => {
            let k = choose(fields.len() + 3);
            if k < 3 {
                clock[k] = free("", k + choose(2));
            } else if fields[k - 3].0 == "-" {
                // spares may be spelled, and are ignored
                vals[k - 3] = free("", k);
            } else {
                vals[k - 3] = free(fields[k - 3].1, k);
            }
            letter2 = [b'D', b'E', b'e'][choose(3)];
            if f.v == 2 && letter2 == b'e' {
                letter2 = b'D';
            }
        }
        // blank fields
        _ => {
            let k = choose(fields.len());
            let l = if thorough() { choose(fields.len()) } else { k + choose(3) };
            vals[k] = What::Blank;
            if l < fields.len() {
                vals[l] = What::Blank;
            }
            ends = [Ends::Kept, Ends::Trimmed, Ends::Padded][choose(3)];
        }
    }
    let mut t = header(f);
    frame(f, f.sat, &mut t, clock, &vals, letter2, ends);
    let o = if f.v == 2 {
        f.other
    } else {
        // same constellation
        match &f.sat[..1] {
            "G" => "G21",
            "R" => "R11",
            "E" => "E33",
            "J" => "J03",
            "C" => "C30",
            _ => "S24",
        }
    };
    frame(f, o, &mut t, oclock, &other, letter, Ends::Kept);
    match parse(&t) {
        Ok(r) => {
            verify(&r, f, f.sat, clock, &vals, &fields);
            verify(&r, f, o, oclock, &other, &fields);
        }
        Err(_) => check(false, "parses"),
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c17_v2_values() {
    run(&V2, 0)
}
#[no_mangle]
pub extern "C" fn c17_v3_values() {
    run(&V3, 0)
}
#[no_mangle]
pub extern "C" fn c17_v4_values() {
    run(&V4, 0)
}
#[no_mangle]
pub extern "C" fn c17_v2_blanks() {
    run(&V2, 1)
}
#[no_mangle]
pub extern "C" fn c17_v3_blanks() {
    run(&V3, 1)
}
#[no_mangle]
pub extern "C" fn c17_v4_blanks() {
    run(&V4, 1)
}

/// messages other than ephemerides (RINEX4): any one coefficient free
fn others(kind: usize) {
    let (sat, tag, msg, per): (&str, &str, &str, &[usize]) = match kind {
        0 => ("G07", "ION", "LNAV", &[3, 4, 2]),
        1 => ("J02", "ION", "LNAV", &[3, 4, 2]),
        2 => ("C07", "ION", "D1D2", &[3, 4, 1]),
        3 => ("E07", "ION", "IFNV", &[3, 1]),
        4 => ("C20", "ION", "CNVX", &[3, 4, 2]),
        5 => ("G07", "EOP", "CNVX", &[3, 4, 4]),
        6 => ("J02", "EOP", "CNVX", &[3, 4, 4]),
        _ => ("C20", "EOP", "CNVX", &[3, 4, 4]),
    };
    let total: usize = per.iter().sum();
    let focus = choose(total);
    let letter = [b'E', b'e', b'D'][choose(3)];
    let mut vals = vec![];
    for i in 0..total {
        vals.push(known(i));
    }
    // fields of their own
    match kind {
        0 | 2 => {
            if kind == 0 {
                vals[8] = What::Int(0)
            }
        }
        1 => vals[8] = What::Int(if focus == 8 { 0 } else { 1 }),
        3 => vals[3] = What::Int(if focus == 3 { [0, 1, 2, 4, 8, 16, 31][choose(7)] } else { 5 }),
        5 | 6 | 7 => {
            vals[3] = What::Blank;
            vals[7] = What::Int(4500);
        }
        _ => (),
    }
    let coded = match kind {
        0 | 1 => focus == 8,
        3 => focus == 3,
        5 | 6 | 7 => focus == 3 || focus == 7,
        _ => false,
    };
    if kind >= 5 && focus == 7 {
        vals[7] = free("u", 0);
    } else if !coded {
        vals[focus] = free("", focus + choose(2));
    }
    let mut t = vec![];
    hl(&mut t, "     4.00           N: GNSS NAV DATA    M: MIXED", "RINEX VERSION / TYPE");
    hl(&mut t, "", "END OF HEADER");
    t.extend_from_slice(format!("> {tag} {sat} {msg}\n").as_bytes());
    t.extend_from_slice(b"    2022 06 08 10 15 32");
    let mut k = 0;
    for (l, n) in per.iter().enumerate() {
        if l > 0 {
            t.extend_from_slice(b"    ");
        }
        for _ in 0..*n {
            put(&mut t, vals[k], letter);
            k += 1;
        }
        t.push(b'\n');
    }
    // something follows
    t.extend_from_slice(b"> EPH G21 LNAV\n");
    let r = match parse(&t) {
        Ok(r) => r,
        Err(_) => return check(false, "parses"),
    };
    let key = NavKey {
        epoch: Epoch::from_gregorian(2022, 6, 8, 10, 15, 32, 0, constellation_ts(sat)),
        sv: sv(sat),
        msgtype: NavMessageType::from_str(msg).unwrap(),
        frmtype: NavFrameType::from_str(tag).unwrap(),
    };
    let v: Vec<f64> = vals.iter().map(|w| value(*w)).collect();
    let frame = match r.record.as_nav().and_then(|r| r.get(&key)) {
        Some(f) => f,
        None => return check(false, "message of that satellite and time"),
    };
    let mut ok = true;
    match kind {
        0 | 1 | 2 => match frame.as_ionosphere_model().and_then(|m| m.as_klobuchar()) {
            Some(m) => {
                let got = [m.alpha.0, m.alpha.1, m.alpha.2, m.alpha.3, m.beta.0, m.beta.1, m.beta.2, m.beta.3];
                for i in 0..8 {
                    ok &= got[i] == v[i];
                }
                check(ok, "Klobuchar coefficients");
                let japan = kind == 1 && focus != 8;
                check((m.region == KbRegionCode::Japan) == japan, "region code");
            }
            None => check(false, "Klobuchar model"),
        },
        3 => match frame.as_ionosphere_model().and_then(|m| m.as_nequick_g()) {
            Some(m) => {
                let got = [m.a.0, m.a.1, m.a.2];
                for i in 0..3 {
                    ok &= got[i] == v[i];
                }
                check(ok, "Nequick-G coefficients");
                check(m.region.bits() as f64 == v[3], "disturbance flags");
            }
            None => check(false, "Nequick-G model"),
        },
        4 => match frame.as_ionosphere_model().and_then(|m| m.as_bdgim()) {
            Some(m) => {
                let a = m.alpha;
                let got = [a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8];
                for i in 0..9 {
                    ok &= got[i] == v[i];
                }
                check(ok, "BDGIM coefficients");
            }
            None => check(false, "BDGIM model"),
        },
        _ => match frame.as_earth_orientation() {
            Some(m) => {
                let got = [m.x.0, m.x.1, m.x.2, m.y.0, m.y.1, m.y.2, m.delta_ut1.0, m.delta_ut1.1, m.delta_ut1.2];
                let from = [0, 1, 2, 4, 5, 6, 8, 9, 10];
                for i in 0..9 {
                    ok &= got[i] == v[from[i]];
                }
                check(ok, "Earth orientation parameters");
                check(
                    match vals[7] {
                        What::Text(_, d, 3) => m.t_tm as i64 == num(&d[..4]),
                        _ => m.t_tm == 4500,
                    },
                    "transmission time",
                );
            }
            None => check(false, "Earth orientation message"),
        },
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c17_v4_models() {
    others(choose(5))
}
#[no_mangle]
pub extern "C" fn c17_v4_eop() {
    others(5 + choose(3))
}
/// system time offsets: transmission time, then the three coefficients
#[no_mangle]
pub extern "C" fn c17_kf_sto() {
    let mut t = vec![];
    hl(&mut t, "     4.00           N: GNSS NAV DATA    M: MIXED", "RINEX VERSION / TYPE");
    hl(&mut t, "", "END OF HEADER");
    t.extend_from_slice(b"> STO E07 IFNV\n    2022 06 08 00 00 00 GAUT                                  UTCGAL\n    ");
    put(&mut t, What::Int(4500), b'E');
    for i in 0..3 {
        put(&mut t, known(i), b'E');
    }
    t.push(b'\n');
    let key = NavKey {
        epoch: Epoch::from_gregorian(2022, 6, 8, 0, 0, 0, 0, TimeScale::GST),
        sv: sv("E07"),
        msgtype: NavMessageType::IFNV,
        frmtype: NavFrameType::SystemTimeOffset,
    };
    match parse(&t) {
        Ok(r) => match r.record.as_nav().and_then(|r| r.get(&key)).and_then(|f| f.as_system_time()) {
            Some(m) => {
                check(m.system == "GAUT" && m.utc == "UTCGAL", "systems");
                check((m.t_tm == 4500) & (m.a.0 == value(known(0))) & (m.a.1 == value(known(1))) & (m.a.2 == value(known(2))), "transmission time comes first");
            }
            None => check(false, "system time offset"),
        },
        Err(_) => check(false, "parses"),
    }
    reach("end");
}
