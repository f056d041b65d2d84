//! C08: flag and strength codes map one to one
use crate::util::*;
use rinex::clock::ClockProfileType;
use rinex::observation::{EpochFlag, LliFlags, SNR};

fn word(max: usize) -> Vec<u8> {
    let n = choose(max + 1);
    (0..n).map(|_| printable()).collect()
}
#[no_mangle]
pub extern "C" fn c08_epoch_flag() {
    let w = word(3);
    let r = EpochFlag::from_str(text(&w));
    let valid = w.len() == 1 && fork((w[0] >= b'0') & (w[0] <= b'6'));
    match r {
        Ok(f) => {
            check(valid, "only documented codes");
            check(same(f.to_string().as_bytes(), &w), "prints its code");
            check(f as u8 == w[0].wrapping_sub(b'0'), "the flag of that code");
            check(f.is_ok() == (w[0] == b'0'), "0 is ok");
        }
        Err(_) => check(!valid, "documented codes accepted"),
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c08_lli() {
    let b = byte();
    match LliFlags::from_bits(b) {
        Some(f) => {
            check(b < 8, "three bits");
            check(f.bits() == b, "same bits");
            check(f.contains(LliFlags::LOCK_LOSS) == (b & 1 != 0), "bit 0: lock loss");
            check(f.contains(LliFlags::HALF_CYCLE_SLIP) == (b & 2 != 0), "bit 1: half cycle");
            check(f.contains(LliFlags::UNDER_ANTI_SPOOFING) == (b & 4 != 0), "bit 2: anti spoofing");
        }
        None => check(b >= 8, "all combinations accepted"),
    }
    reach("end");
}
const CLASSES: [SNR; 10] = [SNR::DbHz0, SNR::DbHz12, SNR::DbHz12_17, SNR::DbHz18_23, SNR::DbHz24_29, SNR::DbHz30_35, SNR::DbHz36_41, SNR::DbHz42_47, SNR::DbHz48_53, SNR::DbHz54];

#[no_mangle]
pub extern "C" fn c08_snr_code() {
    let w = word(2);
    let r = SNR::from_str(text(&w));
    let valid = w.len() == 1 && fork(w[0].is_ascii_digit());
    match r {
        Ok(s) => {
            if valid {
                check(s as u8 == w[0] - b'0', "class of that digit");
                check(same(format!("{:x}", s).as_bytes(), &w), "prints its code");
            } else {
                // blanks around a digit
                check(w.len() == 2 && (w[0] == b' ' || w[1] == b' ') && (w[0].is_ascii_digit() || w[1].is_ascii_digit()), "only documented codes");
            }
        }
        Err(_) => check(!valid, "documented codes accepted"),
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c08_snr_class() {
    let d = byte();
    let s = SNR::from(d);
    check((s as u8 == d) | ((d > 9) & (s == SNR::DbHz0)), "numeric code");
    for (i, c) in CLASSES.iter().enumerate() {
        check(*c as usize == i, "classes are ordered");
        check(SNR::from(i as u8) == *c, "class of a code");
        check(c.bad() == (i <= 3), "bad");
        check(c.weak() == (i <= 4), "weak");
        check(c.strong() == (i >= 5), "strong");
        check(c.excellent() == (i >= 8), "excellent");
        let db: f64 = (*c).into();
        check(i == 0 || i == 1 || SNR::from(db) == *c, "nominal strength is in its class");
    }
    reach("end");
}
/// dB values: millidB over [-20, 120]
#[no_mangle]
pub extern "C" fn c08_snr_db() {
    let (ka, kb) = (int(-20_000, 120_000), int(-20_000, 120_000));
    assume(ka <= kb);
    let (a, b) = (SNR::from(dec(ka, 3)), SNR::from(dec(kb, 3)));
    check(a <= b, "monotonic");
    // documented ranges
    let c = a as i64;
    if ka < 12_000 {
        check(c == 1, "below 12 dB");
    } else if ka >= 54_000 {
        check(c == 9, "54 dB and above");
    } else {
        for i in 2..9i64 {
            let lo = if i == 2 { 12 } else { 6 * i };
            let hi = 6 * i + 5;
            check((c == i) | (ka < lo * 1000) | (ka >= hi * 1000), "documented range");
        }
        check((c >= 2) & (c <= 9), "one of the classes");
    }
    reach("end");
}
/// letters of `s`, each in either case
fn any_case(s: &str) -> Vec<u8> {
    s.bytes().map(|b| if b.is_ascii_alphabetic() { byte_of(&[b.to_ascii_lowercase(), b.to_ascii_uppercase()]) } else { b }).collect()
}
const MARKERS: [(&str, MarkerType); 14] = [
    ("GEODETIC", MarkerType::Geodetic),
    ("NON GEODETIC", MarkerType::NonGeodetic),
    ("NON PHYSICAL", MarkerType::NonPhysical),
    ("SPACEBORNE", MarkerType::Spaceborne),
    ("AIRBORNE", MarkerType::Airborne),
    ("WATER CRAFT", MarkerType::Watercraft),
    ("GROUND CRAFT", MarkerType::Groundcraft),
    ("FIXED BUOY", MarkerType::FixedBuoy),
    ("FLOATING BUOY", MarkerType::FloatingBuoy),
    ("FLOATING ICE", MarkerType::FloatingIce),
    ("GLACIER", MarkerType::Glacier),
    ("BALLISTIC", MarkerType::Ballistic),
    ("ANIMAL", MarkerType::Animal),
    ("HUMAN", MarkerType::Human),
];
#[no_mangle]
pub extern "C" fn c08_marker() {
    let (code, ty) = MARKERS[choose(14)];
    check(ty.to_string() == code, "prints its code");
    let mut w = any_case(code);
    let at = choose(w.len() + 1);
    if at < w.len() {
        let b = printable();
        assume(b.to_ascii_uppercase() != code.as_bytes()[at]);
        w[at] = b;
        check(MarkerType::from_str(text(&w)).is_err(), "anything else is rejected");
    } else {
        check(MarkerType::from_str(text(&w)).ok() == Some(ty), "parses its code");
        w.push(printable());
        check(MarkerType::from_str(text(&w)).is_err(), "longer text is rejected");
    }
    reach("end");
}
const PROFILES: [(&str, ClockProfileType); 5] = [
    ("AR", ClockProfileType::AR),
    ("AS", ClockProfileType::AS),
    ("CR", ClockProfileType::CR),
    ("DR", ClockProfileType::DR),
    ("MS", ClockProfileType::MS),
];
#[no_mangle]
pub extern "C" fn c08_clock_profile() {
    let w = word(3);
    let r = ClockProfileType::from_str(text(&w));
    let s = text(&w).trim();
    let mut found = None;
    for (code, ty) in PROFILES.iter() {
        check(&ty.to_string() == code, "prints its code");
        if s.len() == 2 {
            let b = s.as_bytes();
            let c = code.as_bytes();
            if fork((b[0].to_ascii_uppercase() == c[0]) & (b[1].to_ascii_uppercase() == c[1])) {
                found = Some(ty.clone());
            }
        }
    }
    check(r.ok() == found, "exactly the documented codes");
    reach("end");
}
#[no_mangle]
pub extern "C" fn c08_file_type() {
    let types = [RinexType::ObservationData, RinexType::NavigationData, RinexType::MeteoData, RinexType::ClockData, RinexType::IonosphereMaps, RinexType::AntennaData, RinexType::DORIS];
    let codes = ["OBSERVATION DATA", "NAVIGATION DATA", "METEOROLOGICAL DATA", "CLOCK DATA", "IONOSPHERE MAPS", "ANTEX", "DORIS"];
    let i = choose(7);
    for c in [None, Some(Constellation::GPS), Some(Constellation::Glonass), Some(Constellation::Mixed)] {
        check(RinexType::from_str(&types[i].to_standard_string(c)).ok() == Some(types[i]), "standard descriptor parses back");
    }
    let mut w = any_case(codes[i]);
    let at = choose(w.len() + 1);
    if at < w.len() {
        let b = printable();
        assume(b.to_ascii_uppercase() != codes[i].as_bytes()[at]);
        w[at] = b;
        check(RinexType::from_str(text(&w)).is_err(), "anything else is rejected");
    } else {
        check(RinexType::from_str(text(&w)).ok() == Some(types[i]), "parses its code");
    }
    reach("end");
}
