//! C07: an epoch text means the instant it spells
use crate::util::*;
use rinex::navigation::NavFrame;

/// proleptic Gregorian days since 1970-01-01
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2 - era * 400;
    let mp = (m + 9) % 12;
    let doy = (153 * mp + 2) / 5;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468 + d - 1
}
fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// day (since 1970-01-01) each timescale counts from
fn origin(ts: TimeScale) -> i64 {
    match ts {
        TimeScale::GPST | TimeScale::QZSST => days(1980, 1, 6),
        TimeScale::GST => days(1980, 1, 6) + 7 * 1024,
        TimeScale::BDT => days(2006, 1, 1),
        _ => days(1900, 1, 1),
    }
}

/// one date and time: year, month concrete, the rest free digits
struct When {
    y: i64,
    m: i64,
    d: [u8; 2],
    h: [u8; 2],
    mi: [u8; 2],
    s: [u8; 2],
    frac: Vec<u8>,
}
fn two(a: u8, b: u8) -> i64 {
    num(&[a, b])
}
impl When {
    fn days_ns(&self) -> (i64, i64) {
        let d = days(self.y, self.m, 1) + two(self.d[0], self.d[1]) - 1;
        let s = two(self.h[0], self.h[1]) * 3600 + two(self.mi[0], self.mi[1]) * 60 + two(self.s[0], self.s[1]);
        let mut f = num(&self.frac);
        for _ in self.frac.len()..9 {
            f *= 10;
        }
        (d, s * 1_000_000_000 + f)
    }
    fn is(&self, e: Epoch, ts: TimeScale) -> bool {
        let (d, ns) = self.days_ns();
        let d = d - origin(ts);
        let t = d as i128 * 86_400_000_000_000 + ns as i128;
        (e.time_scale == ts) & (e.duration.total_nanoseconds() == t)
    }
}
/// years and months explored: all of them, or those around which
/// conventions change
fn year_month() -> (i64, i64) {
    if thorough() {
        let y = choose(100) as i64;
        return (1980 + y, 1 + choose(12) as i64);
    }
    let y = [1980, 1981, 1999, 2000, 2001, 2020, 2023, 2024, 2078, 2079][choose(10)];
    if y == 2023 || y == 2024 {
        (y, 1 + choose(12) as i64)
    } else {
        (y, [1, 2, 3, 12][choose(4)])
    }
}
/// a valid date: any day and time
fn valid(nfrac: usize) -> When {
    let (y, m) = year_month();
    let len = month_len(y, m);
    // the shape of the day: 01-09, 10-19, 20-29, the rest
    let d = match choose(if len > 29 { 4 } else { 3 }) {
        0 => [b'0', byte_in(b'1', b'9')],
        1 => [b'1', digit()],
        2 => [b'2', byte_in(b'0', if len == 28 { b'8' } else { b'9' })],
        _ => [b'3', byte_in(b'0', if len == 30 { b'0' } else { b'1' })],
    };
    let mut w = any_time(nfrac);
    w.y = y;
    w.m = m;
    w.d = d;
    w
}
fn any_time(nfrac: usize) -> When {
    let h = if flip() { [byte_in(b'0', b'1'), digit()] } else { [b'2', byte_in(b'0', b'3')] };
    let mi = [byte_in(b'0', b'5'), digit()];
    let s = [byte_in(b'0', b'5'), digit()];
    When { y: 2020, m: 1, d: *b"01", h, mi, s, frac: digits(nfrac) }
}
/// exactly one field is out of its range
fn invalid(nfrac: usize) -> When {
    let y = [2023, 2024, 1999, 2000][choose(4)];
    let mut w = When { y, m: 3, d: *b"04", h: *b"05", mi: *b"06", s: *b"07", frac: vec![b'0'; nfrac] };
    match choose(9) {
        0 => {
            w.m = 1 + choose(12) as i64;
            w.d = *b"00";
        }
        1 => {
            w.m = 1 + choose(12) as i64;
            w.d = [b'3', byte_in(b'2', b'9')];
        }
        2 => w.d = [byte_in(b'4', b'9'), digit()],
        3 => {
            w.m = [4, 6, 9, 11][choose(4)];
            w.d = *b"31";
        }
        4 => {
            w.m = 2;
            w.d = [b'3', byte_in(b'0', b'1')];
        }
        5 => {
            w.m = 2;
            w.d = *b"29";
            if leap(y) {
                w.d = *b"30";
            }
        }
        6 => {
            w.m = [0, 13, 20, 99][choose(4)];
        }
        7 => {
            if flip() {
                w.h = [byte_in(b'3', b'9'), digit()];
            } else {
                w.h = [b'2', byte_in(b'5', b'9')];
            }
        }
        _ => {
            // (60 seconds is how leap seconds are spelled)
            if flip() {
                w.mi = [byte_in(b'6', b'9'), digit()];
            } else if flip() {
                w.s = [b'6', byte_in(b'1', b'9')];
            } else {
                w.s = [byte_in(b'7', b'9'), digit()];
            }
        }
    }
    w
}
/// columns of a two digit number, leading zero or blank
fn put2(t: &mut Vec<u8>, d: [u8; 2], blank: bool) {
    if blank {
        // (only leading zeros turn blank)
        if fork(d[0] == b'0') {
            t.push(b' ');
        } else {
            t.push(d[0]);
        }
    } else {
        t.push(d[0]);
    }
    t.push(d[1]);
}
fn month2(m: i64) -> [u8; 2] {
    [b'0' + (m / 10) as u8, b'0' + (m % 10) as u8]
}
fn year4(t: &mut Vec<u8>, y: i64) {
    t.extend_from_slice(format!("{:04}", y).as_bytes());
}
fn year2(t: &mut Vec<u8>, y: i64) {
    t.extend_from_slice(format!("{:02}", y % 100).as_bytes());
}

#[derive(Clone, Copy, PartialEq)]
enum L {
    Obs2,
    Obs3,
    Nav2,
    Nav3,
    Nav4,
    Met2,
    Met3,
    Ionex,
    Clk2,
    Clk3,
    Doris,
}
const LAYOUTS: [L; 11] = [L::Obs2, L::Obs3, L::Nav2, L::Nav3, L::Nav4, L::Met2, L::Met3, L::Ionex, L::Clk2, L::Clk3, L::Doris];

fn nfrac(l: L) -> usize {
    match l {
        L::Obs2 | L::Obs3 => 7,
        L::Nav2 => 1,
        L::Clk2 | L::Clk3 => 6,
        L::Doris => 9,
        _ => 0,
    }
}
/// timescales a layout can be given in: (how the file says so, timescale)
fn scales(l: L) -> &'static [(&'static str, TimeScale)] {
    match l {
        L::Obs2 | L::Obs3 => &[("GPS", TimeScale::GPST), ("GLO", TimeScale::UTC), ("GAL", TimeScale::GST), ("BDT", TimeScale::BDT), ("QZS", TimeScale::QZSST)],
        L::Nav2 => &[("G", TimeScale::GPST), ("R", TimeScale::UTC)],
        L::Nav3 | L::Nav4 => &[("G", TimeScale::GPST), ("R", TimeScale::UTC), ("E", TimeScale::GST), ("C", TimeScale::BDT), ("J", TimeScale::QZSST)],
        L::Met2 | L::Met3 | L::Ionex => &[("", TimeScale::UTC)],
        L::Clk2 | L::Clk3 => &[("GPS", TimeScale::GPST), ("UTC", TimeScale::UTC), ("TAI", TimeScale::TAI), ("GAL", TimeScale::GST), ("BDT", TimeScale::BDT)],
        L::Doris => &[("", TimeScale::TAI)],
    }
}
/// complete file with one epoch
fn file(l: L, how: &str, w: &When, blank: bool) -> Vec<u8> {
    let mut t = vec![];
    let mut b = vec![];
    let m = month2(w.m);
    match l {
        L::Obs2 | L::Obs3 => {
            hl(&mut t, if l == L::Obs2 { "     2.11           OBSERVATION DATA    M (MIXED)" } else { "     3.04           OBSERVATION DATA    M: MIXED" }, "RINEX VERSION / TYPE");
            if l == L::Obs2 {
                hl(&mut t, "     1    C1", "# / TYPES OF OBSERV");
            } else {
                hl(&mut t, "G    1 C1C", "SYS / # / OBS TYPES");
            }
            hl(&mut t, &format!("  2020     1     1     0     0    0.0000000     {}", how), "TIME OF FIRST OBS");
            if l == L::Obs2 {
                b.push(b' ');
                year2(&mut b, w.y);
            } else {
                b.extend_from_slice(b"> ");
                year4(&mut b, w.y);
            }
            for f in [m, w.d, w.h, w.mi, w.s] {
                b.push(b' ');
                put2(&mut b, f, blank);
            }
            b.push(b'.');
            b.extend_from_slice(&w.frac);
            b.extend_from_slice(if l == L::Obs2 { b"  0  1G07\n  21110991.756\n" as &[u8] } else { b"  0  1\nG07  21110991.756\n" });
        }
        L::Nav2 => {
            if how == "G" {
                hl(&mut t, "     2.10           N: GPS NAV DATA", "RINEX VERSION / TYPE");
            } else {
                hl(&mut t, "     2.10           G: GLONASS NAV DATA", "RINEX VERSION / TYPE");
            }
            b.extend_from_slice(b" 7 ");
            year2(&mut b, w.y);
            for f in [m, w.d, w.h, w.mi] {
                b.push(b' ');
                put2(&mut b, f, blank);
            }
            b.push(b' ');
            put2(&mut b, w.s, blank);
            b.push(b'.');
            b.extend_from_slice(&w.frac);
            b.extend_from_slice(b" 1.000000000000D-04 2.000000000000D-12 0.000000000000D+00\n");
            for _ in 0..if how == "G" { 7 } else { 3 } {
                b.extend_from_slice(b"    1.000000000000D+00 2.000000000000D+00 3.000000000000D+00 4.000000000000D+00\n");
            }
        }
        L::Nav3 | L::Nav4 => {
            hl(&mut t, if l == L::Nav3 { "     3.04           N: GNSS NAV DATA    M: MIXED" } else { "     4.00           N: GNSS NAV DATA    M: MIXED" }, "RINEX VERSION / TYPE");
            if l == L::Nav4 {
                let msg = match how {
                    "R" => "FDMA",
                    "E" => "INAV",
                    "C" => "D1",
                    _ => "LNAV",
                };
                b.extend_from_slice(format!("> EPH {}07 {}\n", how, msg).as_bytes());
            }
            b.extend_from_slice(format!("{}07 ", how).as_bytes());
            year4(&mut b, w.y);
            for f in [m, w.d, w.h, w.mi, w.s] {
                b.push(b' ');
                put2(&mut b, f, blank);
            }
            b.extend_from_slice(b" 1.000000000000D-04 2.000000000000D-12 0.000000000000D+00\n");
            for _ in 0..if how == "R" { 3 } else { 7 } {
                b.extend_from_slice(b"     1.000000000000D+00 2.000000000000D+00 3.000000000000D+00 4.000000000000D+00\n");
            }
        }
        L::Met2 | L::Met3 => {
            hl(&mut t, if l == L::Met3 { "     3.02           METEOROLOGICAL DATA" } else { "     2.11           METEOROLOGICAL DATA" }, "RINEX VERSION / TYPE");
            hl(&mut t, "     1    PR", "# / TYPES OF OBSERV");
            b.push(b' ');
            if l == L::Met2 {
                year2(&mut b, w.y);
            } else {
                year4(&mut b, w.y);
            }
            for f in [m, w.d, w.h, w.mi, w.s] {
                b.push(b' ');
                put2(&mut b, f, blank);
            }
            b.extend_from_slice(b"  993.4\n");
        }
        L::Ionex => {
            hl(&mut t, "     1.0            IONOSPHERE MAPS     MIX", "IONEX VERSION / TYPE");
            year_ionex(&mut t, w, blank, "EPOCH OF FIRST MAP");
            hl(&mut t, "     2", "MAP DIMENSION");
            hl(&mut t, "   450.0 450.0   0.0", "HGT1 / HGT2 / DHGT");
            hl(&mut t, "    87.5 -87.5  -2.5", "LAT1 / LAT2 / DLAT");
            hl(&mut t, "  -180.0 180.0   5.0", "LON1 / LON2 / DLON");
            hl(&mut t, "    -1", "EXPONENT");
            hl(&mut b, "     1", "START OF TEC MAP");
            year_ionex(&mut b, w, blank, "EPOCH OF CURRENT MAP");
            hl(&mut b, "    87.5-180.0-175.0   5.0 450.0", "LAT/LON1/LON2/DLON/H");
            b.extend_from_slice(b"   33   33\n");
            hl(&mut b, "     1", "END OF TEC MAP");
            hl(&mut b, "     2", "START OF TEC MAP");
            hl(&mut b, "     2", "END OF TEC MAP");
        }
        L::Clk2 | L::Clk3 => {
            hl(&mut t, if l == L::Clk2 { "     3.00           CLOCK DATA" } else { "     3.04           CLOCK DATA" }, "RINEX VERSION / TYPE");
            hl(&mut t, &format!("   {}", how), "TIME SYSTEM ID");
            hl(&mut t, "     1    AS", "# / TYPES OF DATA");
            b.extend_from_slice(if l == L::Clk2 { b"AS G07  " as &[u8] } else { b"AS G07       " });
            year4(&mut b, w.y);
            for f in [m, w.d, w.h, w.mi, w.s] {
                b.push(b' ');
                put2(&mut b, f, blank);
            }
            b.push(b'.');
            b.extend_from_slice(&w.frac);
            b.extend_from_slice(b"  1    1.234567890123E-04\n");
        }
        L::Doris => {
            hl(&mut t, "     3.00           O                   D", "RINEX VERSION / TYPE");
            hl(&mut t, "D    1 L1", "SYS / # / OBS TYPES");
            hl(&mut t, "D01  OWFC OWENGA                        50253S002  3   0", "STATION REFERENCE");
            b.extend_from_slice(b"> ");
            year4(&mut b, w.y);
            for f in [m, w.d, w.h, w.mi, w.s] {
                b.push(b' ');
                put2(&mut b, f, blank);
            }
            b.push(b'.');
            b.extend_from_slice(&w.frac);
            b.extend_from_slice(b"  0  1       -4.326631626 0 \n");
            b.extend_from_slice(b"D01   1234567.891\n");
        }
    }
    hl(&mut t, "", "END OF HEADER");
    t.extend_from_slice(&b);
    t
}
fn year_ionex(t: &mut Vec<u8>, w: &When, blank: bool, label: &str) {
    let mut l = vec![b' ', b' '];
    year4(&mut l, w.y);
    for f in [month2(w.m), w.d, w.h, w.mi, w.s] {
        l.extend_from_slice(b"    ");
        put2(&mut l, f, blank);
    }
    l.resize(60, b' ');
    t.extend_from_slice(&l);
    t.extend_from_slice(label.as_bytes());
    t.push(b'\n');
}
/// epochs of the record
fn epochs(r: &Rinex) -> Vec<Epoch> {
    if let Some(x) = r.record.as_obs() {
        return x.keys().map(|k| k.epoch).collect();
    }
    if let Some(x) = r.record.as_meteo() {
        return x.keys().map(|k| k.epoch).collect();
    }
    if let Some(x) = r.record.as_ionex() {
        let mut v: Vec<Epoch> = vec![];
        for k in x.keys() {
            if !v.contains(&k.epoch) {
                v.push(k.epoch);
            }
        }
        return v;
    }
    if let Some(x) = r.record.as_clock() {
        return x.keys().cloned().collect();
    }
    if let Some(x) = r.record.as_doris() {
        return x.keys().map(|k| k.epoch).collect();
    }
    if let Some(x) = r.record.as_nav() {
        return x.iter().filter(|(_, f)| matches!(f, NavFrame::EPH(_))).map(|(k, _)| k.epoch).collect();
    }
    vec![]
}
/// a layout and one of its timescales
fn layout(of: &[L]) -> (L, &'static str, TimeScale) {
    let mut v = vec![];
    for l in of {
        for (how, ts) in scales(*l) {
            v.push((*l, *how, *ts));
        }
    }
    v[choose(v.len())]
}
/// a date with (exactly) one blank leading zero
fn blank_zero(nfrac: usize) -> When {
    let mut w = When {
        y: 2024,
        m: 11,
        d: *b"14",
        h: [b'1', digit()],
        mi: [b'1', digit()],
        s: [b'1', digit()],
        frac: digits(nfrac),
    };
    match choose(5) {
        0 => w.m = 1 + choose(9) as i64,
        1 => w.d = [b'0', byte_in(b'1', b'9')],
        2 => w.h[0] = b'0',
        3 => w.mi[0] = b'0',
        _ => w.s[0] = b'0',
    }
    w
}
fn parses(of: &[L]) {
    let (l, how, ts) = layout(of);
    let blank = choose(2) == 1;
    let w = if blank { blank_zero(nfrac(l)) } else { valid(nfrac(l)) };
    let t = file(l, how, &w, blank);
    match parse(&t) {
        Ok(r) => {
            let e = epochs(&r);
            check(e.len() == 1, "one epoch");
            for e in e {
                check(w.is(e, ts), "the instant spelled");
            }
            if let (L::Ionex, Some(x)) = (l, &r.header.ionex) {
                check(w.is(x.epoch_of_first_map, ts), "first map");
            }
        }
        Err(_) => check(false, "parses"),
    }
    reach("parsed");
}
#[no_mangle]
pub extern "C" fn c07_obs() {
    parses(&[L::Obs2, L::Obs3])
}
#[no_mangle]
pub extern "C" fn c07_nav() {
    parses(&[L::Nav2, L::Nav3, L::Nav4])
}
#[no_mangle]
pub extern "C" fn c07_others() {
    parses(&[L::Met2, L::Met3, L::Ionex, L::Clk2, L::Clk3, L::Doris])
}
#[no_mangle]
pub extern "C" fn c07_invalid() {
    let (l, how, _) = layout(&LAYOUTS);
    let w = invalid(nfrac(l));
    match parse(&file(l, how, &w, false)) {
        Ok(r) => check(epochs(&r).is_empty(), "no epoch"),
        Err(_) => {}
    }
    reach("rejected");
}

/// what is written spells the same instant again
#[no_mangle]
pub extern "C" fn c07_write() {
    let (l, how, ts) = layout(&[L::Obs2, L::Obs3, L::Met2, L::Met3]);
    let (y, m) = if thorough() {
        year_month()
    } else {
        [(1980, 1), (1999, 12), (2000, 2), (2023, 2), (2024, 2), (2079, 12)][choose(6)]
    };
    let day = if flip() { 1 } else { month_len(y, m) };
    let mut w = any_time(nfrac(l));
    if matches!(l, L::Met2 | L::Met3) {
        // (that writer hashes the epochs)
        let t: [&[u8; 6]; 4] = [b"000000", b"010203", b"123456", b"235959"];
        let t = t[choose(4)];
        w.h = [t[0], t[1]];
        w.mi = [t[2], t[3]];
        w.s = [t[4], t[5]];
    }
    w.y = y;
    w.m = m;
    w.d = month2(day);
    match parse(&file(l, how, &w, false)) {
        Ok(r) => match parse(&format(&r)) {
            Ok(r2) => {
                let e = epochs(&r2);
                check(e.len() == 1, "one epoch");
                for e in e {
                    check(w.is(e, ts), "the instant written");
                }
            }
            Err(_) => check(false, "parses again"),
        },
        Err(_) => check(false, "parses"),
    }
    reach("written");
}
