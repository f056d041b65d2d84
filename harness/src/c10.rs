//! C10: standard file names
use crate::util::*;
use rinex::prod::{DataSource, ProductionAttributes, FFU, PPU};

const ALNUM: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
const ANY: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcdefghijklmnopqrstuvwxyz";

fn upper(b: u8) -> u8 {
    // branch-free
    b - 32 * ((b >= b'a') & (b <= b'z')) as u8
}
fn alnum(n: usize, anycase: bool) -> Vec<u8> {
    (0..n).map(|_| byte_of(if anycase { ANY } else { ALNUM })).collect()
}
/// number of `n` digits within 0..=max
fn number(n: usize, lo: i64, max: i64) -> (Vec<u8>, i64) {
    let d = digits(n);
    let v = num(&d);
    assume((v >= lo) & (v <= max));
    (d, v)
}
fn file(t: &[u8]) -> Rinex {
    match parse(t) {
        Ok(r) => r,
        Err(_) => {
            check(false, "header parses");
            loop {}
        }
    }
}
/// an empty file of each type
fn skeleton(kind: &str) -> Rinex {
    let mut h = vec![];
    match kind {
        "D" => {
            hl(&mut h, "1.0                 COMPACT RINEX FORMAT", "CRINEX VERS   / TYPE");
            hl(&mut h, "RNX2CRX ver.4.0.7                       28-Dec-21 00:17", "CRINEX PROG / DATE");
            hl(&mut h, "     2.11           OBSERVATION DATA    G (GPS)", "RINEX VERSION / TYPE");
        }
        "O" => hl(&mut h, "     3.04           OBSERVATION DATA    M: MIXED", "RINEX VERSION / TYPE"),
        "OG" => hl(&mut h, "     3.04           OBSERVATION DATA    G: GPS", "RINEX VERSION / TYPE"),
        "OE" => hl(&mut h, "     3.04           OBSERVATION DATA    E: GALILEO", "RINEX VERSION / TYPE"),
        "N" => hl(&mut h, "     3.04           NAVIGATION DATA     M: MIXED", "RINEX VERSION / TYPE"),
        "NN" => hl(&mut h, "     2.11           NAVIGATION DATA     G: GPS", "RINEX VERSION / TYPE"),
        "NR" => hl(&mut h, "     3.04           NAVIGATION DATA     R: GLONASS", "RINEX VERSION / TYPE"),
        "M" => hl(&mut h, "     3.04           METEOROLOGICAL DATA", "RINEX VERSION / TYPE"),
        _ => hl(&mut h, "     1.0            IONOSPHERE MAPS     GPS", "RINEX VERSION / TYPE"),
    }
    if kind == "D" || kind.starts_with('O') {
        hl(&mut h, "  2021    12    21     0     0    0.0000000     GPS", "TIME OF FIRST OBS");
    }
    hl(&mut h, "", "END OF HEADER");
    let mut r = file(&h);
    if kind == "D" {
        r.record = Record::ObsRecord(Default::default());
    }
    r
}
fn same_name(r: &Rinex, short: bool, a: ProductionAttributes, want: &[u8]) {
    let got = r.standard_filename(short, None, Some(a));
    observe_s(&got);
    dump("name", got.as_bytes());
    check(same(got.as_bytes(), want), "same name again");
}
/// ssssddd0.yyt
#[no_mangle]
pub extern "C" fn c10_short() {
    let (kind, letter) = [("O", b'O'), ("D", b'D'), ("M", b'M'), ("NN", b'N'), ("NR", b'G')][choose(5)];
    let lower = flip();
    let name = alnum(4, lower);
    let (d, doy) = number(3, 1, 366);
    let y = digits(2);
    let mut t = name.clone();
    t.extend_from_slice(&d);
    t.extend_from_slice(b"0.");
    t.extend_from_slice(&y);
    t.push(if lower { letter + 32 } else { letter });
    match ProductionAttributes::from_str(text(&t)) {
        Ok(a) => {
            check(same(a.name.as_bytes(), &name.iter().map(|b| upper(*b)).collect::<Vec<_>>()), "station");
            let yy = num(&y);
            check(a.year as i64 == yy + 1900 + 100 * (yy < 80) as i64, "year");
            check(a.doy as i64 == doy, "day of year");
            check(a.region.is_none(), "no region");
            check(a.v3_details.is_none(), "no details");
            let want: Vec<u8> = t.iter().map(|b| upper(*b)).collect();
            same_name(&skeleton(kind), true, a, &want);
        }
        Err(_) => check(false, "parses"),
    }
    reach("short");
}
/// agcrddd0.yyI
#[no_mangle]
pub extern "C" fn c10_ionex() {
    let lower = flip();
    let name = alnum(3, lower);
    let region = byte_of(b"GABCDEFHIJKLMNOPQRSTUVWXYZ");
    let (d, doy) = number(3, 1, 366);
    let y = digits(2);
    let mut t = name.clone();
    t.push(region);
    t.extend_from_slice(&d);
    t.extend_from_slice(b"0.");
    t.extend_from_slice(&y);
    t.push(if lower { b'i' } else { b'I' });
    match ProductionAttributes::from_str(text(&t)) {
        Ok(a) => {
            check(same(a.name.as_bytes(), &name.iter().map(|b| upper(*b)).collect::<Vec<_>>()), "agency");
            let yy = num(&y);
            check(a.year as i64 == yy + 1900 + 100 * (yy < 80) as i64, "year");
            check(a.doy as i64 == doy, "day of year");
            check(a.region.map(|c| c as u32) == Some(region as u32), "region");
            check(a.v3_details.is_none(), "no details");
            let want: Vec<u8> = t.iter().map(|b| upper(*b)).collect();
            same_name(&skeleton("I"), true, a, &want);
        }
        Err(_) => check(false, "parses"),
    }
    reach("ionex");
}
const PERIODS: [(&str, PPU); 5] = [("15M", PPU::QuarterHour), ("01H", PPU::Hourly), ("01D", PPU::Daily), ("01Y", PPU::Yearly), ("00U", PPU::Unspecified)];
/// XXXXMRCCC_S_YYYYDDDHHMM_PPU[_FFU]_TT.ext
#[no_mangle]
pub extern "C" fn c10_long() {
    let (kind, dt, ext, ffu) = [
        ("O", "MO", "RNX", true),
        ("OG", "GO", "RNX", true),
        ("OE", "EO", "RNX", true),
        ("M", "MM", "RNX", true),
        ("N", "MN", "RNX", false),
        ("NR", "RN", "RNX", false),
    ][choose(6)];
    let (period, ppu) = PERIODS[choose(5)];
    let (source, src) = [(b'R', DataSource::Receiver), (b'S', DataSource::Stream), (b'U', DataSource::Unknown)][choose(3)];
    let lower = flip();
    let name = alnum(4, lower);
    let batch = digits(2);
    let country = (0..3).map(|_| byte_of(if lower { b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz" } else { b"ABCDEFGHIJKLMNOPQRSTUVWXYZ" })).collect::<Vec<_>>();
    let (y, year) = number(4, 1970, 2999);
    let (d, doy) = number(3, 1, 366);
    let (hh, h) = number(2, 0, 23);
    let (mm, m) = number(2, 0, 59);
    let mut t = name.clone();
    t.extend_from_slice(&batch);
    t.extend_from_slice(&country);
    t.push(b'_');
    t.push(source);
    t.push(b'_');
    t.extend_from_slice(&y);
    t.extend_from_slice(&d);
    t.extend_from_slice(&hh);
    t.extend_from_slice(&mm);
    t.push(b'_');
    t.extend_from_slice(period.as_bytes());
    let mut rate = None;
    if ffu {
        t.push(b'_');
        let n = digits(2);
        let u = choose(4);
        t.extend_from_slice(&n);
        t.push(b"SMHD"[u]);
        rate = Some((num(&n), u));
    }
    t.push(b'_');
    t.extend_from_slice(dt.as_bytes());
    t.push(b'.');
    t.extend_from_slice(ext.as_bytes());
    dump("file name", &t);
    match ProductionAttributes::from_str(text(&t)) {
        Ok(a) => {
            check(same(a.name.as_bytes(), &name.iter().map(|b| upper(*b)).collect::<Vec<_>>()), "station");
            check(a.year as i64 == year, "year");
            check(a.doy as i64 == doy, "day of year");
            check(a.region.is_none(), "no region");
            match &a.v3_details {
                Some(x) => {
                    check(same(x.country.as_bytes(), &country.iter().map(|b| upper(*b)).collect::<Vec<_>>()), "country");
                    check(x.batch as i64 == num(&batch), "batch");
                    check(x.data_src == src, "data source");
                    check(x.ppu == ppu, "period");
                    check((x.hh as i64 == h) & (x.mm as i64 == m), "hour and minute");
                    match (&x.ffu, rate) {
                        (Some(f), Some((v, u))) => {
                            check(f.val as i64 == v, "sampling interval");
                            check(f.unit == [hifitime::Unit::Second, hifitime::Unit::Minute, hifitime::Unit::Hour, hifitime::Unit::Day][u], "sampling unit");
                        }
                        (None, None) => {}
                        _ => check(false, "sampling interval"),
                    }
                }
                None => check(false, "details"),
            }
            // extensions are not upper case
            let mut want: Vec<u8> = t.iter().map(|b| upper(*b)).collect();
            let n = want.len();
            want[n - 3..].copy_from_slice(b"rnx");
            same_name(&skeleton(kind), false, a, &want);
        }
        Err(_) => check(false, "parses"),
    }
    reach("long");
}
/// names of the record's own first epoch: any instant
#[no_mangle]
pub extern "C" fn c10_epoch() {
    use rinex::observation::Record as ObsRecord;
    use rinex::prelude::obs::{EpochFlag, ObsKey, Observations};
    let long = flip();
    let mut r = skeleton("O");
    let (year, ts) = [(1999, TimeScale::UTC), (2024, TimeScale::GPST), (2021, TimeScale::UTC), (2000, TimeScale::GPST)][choose(if thorough() { 4 } else { 2 })];
    let leap = year % 4 == 0;
    // around the end of months and years
    let days = if thorough() { vec![0, 1, 30, 58, 59, 60, 89, 99, 100, 181, 303, 333, 363, 364, 365] } else { vec![0, 9, 58, 59, 99, 333, 364, 365] };
    let day = days[choose(days.len() - !leap as usize)];
    // seconds since new year
    let (hh, mm) = (int(0, 23), int(0, 59));
    let s = day * 86_400 + hh * 3600 + mm * 60 + int(0, 59);
    let ns = int(0, 999_999_999);
    let base = Epoch::from_gregorian(year, 1, 1, 0, 0, 0, 0, ts);
    // (no leap second is inserted in the course of those years)
    let t = Epoch::from_duration(base.to_duration_in_time_scale(ts) + Duration::from_truncated_nanoseconds(s * 1_000_000_000 + ns), ts);
    let mut m = ObsRecord::new();
    m.insert(ObsKey { epoch: t, flag: EpochFlag::Ok }, Observations::default());
    r.record = Record::ObsRecord(m);
    r.production.name = "ABCD".to_string();
    let got = r.standard_filename(!long, None, None);
    observe_s(&got);
    let b = got.as_bytes();
    let d = |i: usize| (b[i] as i64) - 48;
    let doy = day + 1;
    if long {
        check(b.len() == 38, "length");
        check(d(12) * 1000 + d(13) * 100 + d(14) * 10 + d(15) == year as i64, "year of the first epoch");
        check(d(16) * 100 + d(17) * 10 + d(18) == doy, "day of the first epoch");
        check(d(19) * 10 + d(20) == hh, "hour of the first epoch");
        check(d(21) * 10 + d(22) == mm, "minute of the first epoch");
    } else {
        check(b.len() == 12, "length");
        check(d(4) * 100 + d(5) * 10 + d(6) == doy, "day of the first epoch");
        check(d(9) * 10 + d(10) == year as i64 % 100, "year of the first epoch");
    }
    reach("epoch");
}
/// sampling periods and production periods: codes and durations
#[no_mangle]
pub extern "C" fn c10_periods() {
    let u = choose(4);
    let (unit, size, max) = [
        (hifitime::Unit::Second, 1i64, 59),
        (hifitime::Unit::Minute, 60, 59),
        (hifitime::Unit::Hour, 3600, 23),
        (hifitime::Unit::Day, 86_400, 99),
    ][u];
    let n = int(1, max);
    let f = FFU { val: n as u32, unit };
    let t = f.to_string();
    observe_s(&t);
    let b = t.as_bytes();
    check(b.len() == 3, "3 characters");
    check((b[0] as i64 - 48) * 10 + (b[1] as i64 - 48) == n, "digits of the interval");
    check(b[2] == b"SMHD"[u], "letter of the unit");
    match FFU::from_str(&t) {
        Ok(g) => check((g.val == f.val) & (g.unit == f.unit), "same interval again"),
        Err(_) => check(false, "parses"),
    }
    let dt = Duration::from_truncated_nanoseconds(n * size * 1_000_000_000);
    let g = FFU::from(dt);
    check((g.val as i64 == n) & (g.unit == unit), "interval of a duration");
    reach("intervals");
}
#[no_mangle]
pub extern "C" fn c10_ppu() {
    let (code, ppu) = PERIODS[choose(5)];
    check(ppu.to_string() == code, "code");
    check(PPU::from_str(code).ok() == Some(ppu), "same period again");
    match ppu.duration() {
        Some(d) => check(PPU::from(d) == ppu, "period of a duration"),
        None => check(ppu == PPU::Unspecified, "unspecified"),
    }
    // any other code is not a period
    let t: Vec<u8> = vec![byte_in(b' ', b'~'), byte_in(b' ', b'~'), byte_in(b' ', b'~')];
    let known = same(&t, b"15M") | same(&t, b"01H") | same(&t, b"01D") | same(&t, b"01Y");
    match PPU::from_str(text(&t)) {
        Ok(p) => check((p == PPU::Unspecified) != known, "unknown codes are unspecified"),
        Err(_) => check(!known, "known code"),
    }
    reach("periods");
}
/// anything else is refused: the result depends on the text alone, never a crash
#[no_mangle]
pub extern "C" fn c10_malformed() {
    // a valid name, with one character replaced or cut short
    let base: &[u8] = [b"ACOR0630.22O" as &[u8], b"ESBC00DNK_R_20201770000_01D_30S_MO.rnx", b"ESBC00DNK_R_20201770000_01D_MN.rnx"][choose(3)];
    let mut t = base.to_vec();
    let cut = choose(t.len() + 1);
    t.truncate(cut);
    if cut > 0 {
        let i = choose(cut);
        t[i] = byte_in(0, 127);
    }
    if let Ok(a) = ProductionAttributes::from_str(text(&t)) {
        check(a.year <= 9999, "year");
        check(a.doy <= 999, "day");
    }
    reach("malformed");
}
