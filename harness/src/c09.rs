//! C09: observable codes round trip and classify correctly
use crate::util::*;

/// letter, band, optional attribute; in either case
fn code() -> Vec<u8> {
    let n = 2 + choose(2);
    let mut w = vec![byte_of(b"CLDSPWcldspw"), byte_in(b'0', b'9')];
    if n == 3 {
        w.push(byte());
        assume(w[2].is_ascii_alphabetic());
    }
    w
}
fn kind(o: &Observable) -> u8 {
    match o {
        Observable::PhaseRange(_) => b'L',
        Observable::PseudoRange(_) => b'C',
        Observable::Doppler(_) => b'D',
        Observable::SSI(_) => b'S',
        Observable::Power(_) => b'W',
        _ => 0,
    }
}
#[no_mangle]
pub extern "C" fn c09_parse() {
    let w = code();
    let up: Vec<u8> = w.iter().map(|b| b.to_ascii_uppercase()).collect();
    match Observable::from_str(text(&w)) {
        Ok(o) => {
            let k = kind(&o);
            check((k == up[0]) | ((k == b'C') & (up[0] == b'P')), "kind announced by its letter");
            check(same(o.to_string().as_bytes(), &up), "prints its code");
            let n = o.is_phase_range_observable() as u8 + o.is_pseudo_range_observable() as u8 + o.is_doppler_observable() as u8 + o.is_ssi_observable() as u8 + o.is_power_observable() as u8 + o.is_channel_number() as u8;
            check(n == 1, "exactly one class");
            check(
                match k {
                    b'L' => o.is_phase_range_observable(),
                    b'C' => o.is_pseudo_range_observable(),
                    b'D' => o.is_doppler_observable(),
                    b'S' => o.is_ssi_observable(),
                    _ => o.is_power_observable(),
                },
                "the class of its kind",
            );
            match o.code() {
                Some(c) => check(w.len() == 3 && same(c.as_bytes(), &up[1..]), "its signal code"),
                None => check(w.len() == 2 || k == b'W', "three character codes have a signal code"),
            }
            match Observable::from_str(&o.to_string()) {
                Ok(p) => check(p == o, "parses back"),
                Err(_) => check(false, "parses back"),
            }
        }
        Err(_) => check(false, "well formed codes are accepted"),
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c09_reject() {
    let n = choose(5);
    let w: Vec<u8> = (0..n).map(|_| byte_in(b'!', b'~')).collect();
    let valid = Observable::from_str(text(&w)).is_ok();
    let (mut meteo, mut letter) = (false, false);
    let up: Vec<u8> = w.iter().map(|b| b.to_ascii_uppercase()).collect();
    for m in ["P", "PR", "T", "TD", "H", "HR", "F", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"] {
        if m.len() == n {
            meteo |= same(&up, m.as_bytes());
        }
    }
    if n == 2 || n == 3 {
        for l in b"CLDSPW" {
            letter |= up[0] == *l;
        }
    }
    check(valid == (meteo | letter), "exactly the documented letters");
    reach("end");
}
const ALL: [&str; 20] = ["L1C", "L2W", "C1C", "C5Q", "P1", "D1C", "D2", "S1C", "S5Q", "W1C", "PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"];
#[no_mangle]
pub extern "C" fn c09_physics() {
    let (i, j) = (choose(20), choose(20));
    let (a, b) = (ob(ALL[i]), ob(ALL[j]));
    check(a.to_string() == ALL[i], "prints its code");
    let class = |i: usize| match i {
        0..=1 => 0,
        2..=4 => 2,
        5..=6 => 5,
        7..=8 => 7,
        k => k,
    };
    check(a.same_physics(&b) == (class(i) == class(j)), "same physics exactly when of the same kind");
    check((a == b) == (i == j), "equal exactly when the same code");
    let f = ob("F");
    check(f.same_physics(&f) && !f.same_physics(&a) && !a.same_physics(&f), "frequency ratio");
    reach("end");
}

/// RINEX 3/4 table: (band, attributes, MHz)
fn table(c: Constellation) -> &'static [(u8, &'static str, f64)] {
    match c {
        Constellation::GPS => &[(b'1', "CSLXPWYMN", 1575.42), (b'2', "CDSLXPWYMN", 1227.60), (b'5', "IQX", 1176.45)],
        Constellation::Glonass => &[(b'1', "CP", 1602.0), (b'4', "ABX", 1600.995), (b'2', "CP", 1246.0), (b'6', "ABX", 1248.06), (b'3', "IQX", 1202.025)],
        Constellation::Galileo => &[(b'1', "ABCXZ", 1575.42), (b'5', "IQX", 1176.45), (b'7', "IQX", 1207.140), (b'8', "IQX", 1191.795), (b'6', "ABCXZ", 1278.75)],
        Constellation::SBAS => &[(b'1', "C", 1575.42), (b'5', "IQX", 1176.45)],
        Constellation::QZSS => &[(b'1', "CSLXZ", 1575.42), (b'2', "SLX", 1227.60), (b'5', "IQXDPZ", 1176.45), (b'6', "SLXEZ", 1278.75)],
        Constellation::BeiDou => &[(b'2', "IQX", 1561.098), (b'1', "DPXSLZ", 1575.42), (b'5', "DPX", 1176.45), (b'7', "IQXDPZ", 1207.140), (b'8', "DPX", 1191.795), (b'6', "IQXDPZ", 1268.52)],
        _ => &[(b'5', "ABCX", 1176.45), (b'9', "ABCX", 2492.028)],
    }
}
#[no_mangle]
pub extern "C" fn c09_carrier() {
    let cs = [Constellation::GPS, Constellation::Glonass, Constellation::Galileo, Constellation::SBAS, Constellation::QZSS, Constellation::BeiDou, Constellation::IRNSS];
    let c = cs[choose(7)];
    let w = vec![byte_of(b"CLDS"), byte_in(b'0', b'9'), byte_in(b'A', b'Z')];
    let o = match Observable::from_str(text(&w)) {
        Ok(o) => o,
        Err(_) => {
            check(false, "accepted");
            return;
        }
    };
    let r = o.carrier(c);
    let mut listed = false;
    for (band, attrs, _) in table(c) {
        let mut m = false;
        for a in attrs.bytes() {
            m |= w[2] == a;
        }
        listed |= (w[1] == *band) & m;
    }
    // the standard has no pseudo range without code (attribute N)
    listed &= !((w[2] == b'N') & (w[0] == b'C'));
    match r {
        Ok(k) => {
            let f = k.frequency_mhz();
            observe_f(f);
            let mut good = false;
            for (band, _, mhz) in table(c) {
                good |= (w[1] == *band) & ((f - mhz).abs() < 0.001);
            }
            check(good, "carrier of that band");
            check(k.frequency() == f * 1.0E6, "in Hertz");
        }
        Err(_) => check(!listed, "listed signals have a carrier"),
    }
    reach("end");
}
/// RINEX2 codes
#[no_mangle]
pub extern "C" fn c09_carrier_v2() {
    let cs = [(Constellation::GPS, b'1', 1575.42), (Constellation::GPS, b'2', 1227.60), (Constellation::GPS, b'5', 1176.45), (Constellation::Glonass, b'1', 1602.0), (Constellation::Glonass, b'2', 1246.0), (Constellation::Galileo, b'1', 1575.42), (Constellation::Galileo, b'5', 1191.795), (Constellation::Galileo, b'6', 1278.75), (Constellation::SBAS, b'1', 1575.42), (Constellation::SBAS, b'5', 1176.45)];
    let (c, band, mhz) = cs[choose(10)];
    let w = vec![byte_of(b"CLDSP"), band];
    if fork(w[0] == b'P') {
        // precise code: GPS and Glonass
        assume((c == Constellation::GPS || c == Constellation::Glonass) && band != b'5');
    }
    match Observable::from_str(text(&w)).ok().and_then(|o| o.carrier(c).ok()) {
        Some(k) => check((k.frequency_mhz() - mhz).abs() < 1.0E-6, "carrier of that band"),
        None => check(false, "listed signals have a carrier"),
    }
    reach("end");
}
/// Glonass channels
#[no_mangle]
pub extern "C" fn c09_glonass() {
    let k = choose(14) as i8 - 7;
    let g1 = Carrier::L1.with_glonass_offset(k);
    let g2 = Carrier::L2.with_glonass_offset(k);
    let (f1, f2) = (g1.frequency_mhz(), g2.frequency_mhz());
    check((f1 - (1602.0 + k as f64 * 0.5625)).abs() < 1.0E-9, "G1 channel");
    check((f2 - (1246.0 + k as f64 * 0.4375)).abs() < 1.0E-9, "G2 channel");
    check((g1.wavelength() * g1.frequency() - 299_792_458.0).abs() < 1.0E-3, "wavelength");
    reach("end");
}
