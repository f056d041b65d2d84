//! C04 / C05: observations survive write then parse
use crate::util::*;
use rinex::observation::{EpochFlag, LliFlags, ObsKey, Observations, SignalObservation, SNR};
use rinex::prelude::obs::*;
use std::collections::BTreeMap;

type Rec = BTreeMap<ObsKey, Observations>;

/// header text: constellations and their observables
fn skeleton(v3: bool, codes: &[(char, &[&str])]) -> Rinex {
    let mut h = vec![];
    hl(&mut h, if v3 { "     3.04           OBSERVATION DATA    M (MIXED)" } else { "     2.11           OBSERVATION DATA    M (MIXED)" }, "RINEX VERSION / TYPE");
    for (c, obs) in codes {
        let mut l = if v3 { format!("{}{:5}", c, obs.len()) } else { format!("{:6}", obs.len()) };
        let (w, max, label) = if v3 { (4, 13, "SYS / # / OBS TYPES") } else { (6, 9, "# / TYPES OF OBSERV") };
        for (i, o) in obs.iter().enumerate() {
            if i > 0 && i % max == 0 {
                hl(&mut h, &l, label);
                l = "      ".to_string();
            }
            l.push_str(&format!("{:>w$}", o));
        }
        hl(&mut h, &l, label);
    }
    hl(&mut h, "  2022     3     4     0     0    0.0000000     GPS", "TIME OF FIRST OBS");
    hl(&mut h, "", "END OF HEADER");
    match parse(&h) {
        Ok(r) => r,
        Err(_) => {
            check(false, "header parses");
            loop {}
        }
    }
}
fn epoch(d: u8, h: u8, m: u8, s: u8, ns: u32) -> Epoch {
    Epoch::from_gregorian(2022, 3, d, h, m, s, ns, TimeScale::GPST)
}
fn known(s: SV, o: Observable, i: usize) -> SignalObservation {
    SignalObservation { sv: s, observable: o, value: 20_000_000.125 + i as f64, lli: LliFlags::from_bits(1), snr: Some(SNR::DbHz42_47) }
}
/// any value of 14 columns and 3 decimals, any flags
fn free(s: SV, o: Observable) -> SignalObservation {
    let mut r = known(s, o, 0);
    match choose(3) {
        0 => r.value = dec(int(-999_999_999_999, 9_999_999_999_999), 3),
        1 => {
            r.lli = if flip() { LliFlags::from_bits(int(0, 7) as u8) } else { None };
            r.snr = None;
        }
        _ => {
            r.snr = if flip() { Some(SNR::from(choose(10) as u8)) } else { None };
            r.lli = None;
        }
    }
    r
}
fn compare(a: &Rec, b: &Rec) {
    observe(b.len() as u64);
    check(a.len() == b.len(), "number of epochs");
    for (k, o) in a.iter() {
        let p = match b.get(k) {
            Some(p) => p,
            None => {
                check(false, "same epoch and flag");
                return;
            }
        };
        check(o.signals.len() == p.signals.len(), "number of signals");
        for s in o.signals.iter() {
            let mut n = 0;
            for t in p.signals.iter() {
                if s.sv == t.sv && s.observable == t.observable {
                    n += 1;
                    observe_f(t.value);
                    check(s.value == t.value, "value");
                    match (s.lli, t.lli) {
                        (Some(x), Some(y)) => check(x.bits() == y.bits(), "LLI"),
                        (x, y) => check(x.is_none() == y.is_none(), "LLI kept"),
                    }
                    check(s.snr == t.snr, "SNR");
                }
            }
            check(n == 1, "each signal once");
        }
    }
}
fn round_trip(mut r: Rinex, rec: Rec) {
    r.record = Record::ObsRecord(rec.clone());
    let t = format(&r);
    match parse(&t) {
        Ok(p) => match p.record.as_obs() {
            Some(q) => compare(&rec, q),
            None => check(false, "observations"),
        },
        Err(_) => check(false, "parses"),
    }
    reach("end");
}

const V3: [(char, &[&str]); 3] = [('G', &["C1C", "L1C", "S1C"]), ('E', &["L5Q", "C5Q"]), ('S', &["C1C", "L1C"])];
/// one signal entirely free among others, all or none of which are there; or any subset of the signals
fn cells(v3: bool, sats: &[(&str, &[&str])], focus: usize, total: usize) -> Observations {
    let mut o = Observations::default();
    let rest = if focus < total { 1 + choose(2) } else { 0 };
    let mut k = 0;
    for (name, obs) in sats {
        for c in obs.iter() {
            let (s, c) = (sv(name), ob(c));
            if k == focus {
                o.signals.push(free(s, c));
            } else {
                match rest {
                    0 if total > 7 && k % 2 == 0 => o.signals.push(known(s, c, k)),
                    0 => {
                        if flip() {
                            o.signals.push(known(s, c, k));
                        }
                    }
                    1 => o.signals.push(known(s, c, k)),
                    _ => (),
                }
            }
            k += 1;
        }
    }
    let _ = v3;
    o
}
#[cfg(feature = "c04")]
#[no_mangle]
pub extern "C" fn c04_values() {
    let focus = choose(8);
    let o = cells(true, &[("G07", V3[0].1), ("E31", V3[1].1), ("S23", V3[2].1)], focus, 7);
    if o.signals.is_empty() {
        end();
    }
    let mut rec = Rec::new();
    rec.insert(ObsKey { epoch: epoch(4, 0, 0, 0, 0), flag: EpochFlag::Ok }, o);
    round_trip(skeleton(true, &V3), rec);
}
/// several epochs, flags, clock offsets
fn epochs(v3: bool) {
    let codes = if v3 { &V3[..] } else { &V2[..] };
    let (a, b) = if v3 { ("C1C", "L5Q") } else { ("C1", "L1") };
    let mut rec = Rec::new();
    let flags = [EpochFlag::Ok, EpochFlag::PowerFailure, EpochFlag::CycleSlip];
    let times = [epoch(4, 0, 0, 0, 0), epoch(4, 0, 0, 0, 100_000_000), epoch(4, 9, 59, 59, 999_999_900), epoch(31, 23, 7, 5, 500)];
    let which = choose(4);
    let clock = match choose(3) {
        0 => None,
        1 => Some(-0.000_123_456_789),
        _ => Some(0.5),
    };
    for (i, t) in times.iter().enumerate() {
        let mut o = Observations::default();
        o.signals.push(known(sv("G07"), ob(a), i));
        if i != 2 {
            o.signals.push(known(sv("E31"), ob(b), 10 + i));
        }
        let mut flag = EpochFlag::Ok;
        if i == which {
            flag = flags[choose(3)];
            if let Some(c) = clock {
                o = o.with_clock_offset_s(*t, c);
            }
        }
        rec.insert(ObsKey { epoch: *t, flag }, o);
    }
    round_trip(skeleton(v3, codes), rec);
}
/// known finding: receiver clock offsets are never parsed
fn clock(v3: bool) {
    let codes = if v3 { &V3[..] } else { &V2[..] };
    let t = epoch(4, 0, 0, 0, 0);
    let mut o = Observations::default();
    o.signals.push(known(sv("G07"), ob(if v3 { "C1C" } else { "C1" }), 0));
    let mut rec = Rec::new();
    rec.insert(ObsKey { epoch: t, flag: EpochFlag::Ok }, o.with_clock_offset_s(t, -0.0025));
    let mut r = skeleton(v3, codes);
    r.record = Record::ObsRecord(rec);
    if let Ok(p) = parse(&format(&r)) {
        for o in p.record.as_obs().unwrap().values() {
            check(o.clock.is_some(), "receiver clock offset kept");
        }
    }
    reach("end");
}
#[cfg(feature = "c04")]
#[no_mangle]
pub extern "C" fn c04_kf_clock() {
    clock(true)
}
#[cfg(feature = "c05")]
#[no_mangle]
pub extern "C" fn c05_kf_clock() {
    clock(false)
}
#[cfg(feature = "c04")]
#[no_mangle]
pub extern "C" fn c04_epochs() {
    epochs(true)
}
/// every constellation, any satellite number
#[cfg(feature = "c04")]
#[no_mangle]
pub extern "C" fn c04_satellites() {
    let letters = ['G', 'R', 'E', 'C', 'J', 'I', 'S'];
    let i = choose(7);
    let codes: Vec<(char, &[&str])> = letters.iter().map(|c| (*c, &["C1C", "L1C"][..])).collect();
    let mut o = Observations::default();
    // (augmentation satellites: numbers 20 to 58 only)
    let prn = if i == 6 { 20 + choose(39) } else { 1 + choose(if i == 3 { 63 } else { 37 }) };
    for (j, c) in letters.iter().enumerate() {
        let n = if j == i { prn } else { 20 + j };
        let s = sv(&format!("{}{:02}", c, n));
        o.signals.push(known(s, ob("C1C"), j));
        if j % 2 == 0 {
            o.signals.push(known(s, ob("L1C"), 10 + j));
        }
    }
    let mut rec = Rec::new();
    rec.insert(ObsKey { epoch: epoch(4, 0, 0, 0, 0), flag: EpochFlag::Ok }, o);
    round_trip(skeleton(true, &codes), rec);
}
/// any number of observables (the header's list wraps)
#[cfg(feature = "c04")]
#[no_mangle]
pub extern "C" fn c04_observables() {
    observables(true, choose(30) + 1);
}
fn observables(v3: bool, n: usize) {
    let mut names = vec![];
    for k in ["C", "L", "D", "S"] {
        if v3 {
            for b in ["1C", "2W", "2L", "5Q", "1L", "1X", "5X", "2X"] {
                names.push(format!("{}{}", k, b));
            }
        } else {
            for b in ["1", "2", "5", "6", "7", "8"] {
                names.push(format!("{}{}", k, b));
            }
        }
    }
    let names: Vec<&str> = names.iter().map(|s| s.as_str()).take(n).collect();
    let focus = match choose(3) {
        0 => 0,
        1 => n / 2,
        _ => n - 1,
    };
    let mut o = Observations::default();
    for name in ["G07", "G31"] {
        for (i, c) in names.iter().enumerate() {
            let mut x = known(sv(name), ob(c), i);
            if i == focus && name == "G07" {
                x.value = dec(int(-999_999_999_999, -100_000_000_000), 3);
            }
            if i % 3 != 1 {
                o.signals.push(x);
            }
        }
    }
    let mut rec = Rec::new();
    rec.insert(ObsKey { epoch: epoch(4, 0, 0, 0, 0), flag: EpochFlag::Ok }, o);
    round_trip(skeleton(v3, &[('G', &names[..])]), rec);
}

const V2: [(char, &[&str]); 1] = [('M', &["C1", "L1", "L2", "P2", "S1", "D1", "S2"])];
#[cfg(feature = "c05")]
#[no_mangle]
pub extern "C" fn c05_values() {
    let focus = choose(15);
    let o = cells(false, &[("G07", V2[0].1), ("E31", V2[0].1)], focus, 14);
    if o.signals.is_empty() {
        end();
    }
    let mut rec = Rec::new();
    rec.insert(ObsKey { epoch: epoch(4, 0, 0, 0, 0), flag: EpochFlag::Ok }, o);
    round_trip(skeleton(false, &V2), rec);
}
#[cfg(feature = "c05")]
#[no_mangle]
pub extern "C" fn c05_epochs() {
    epochs(false)
}
/// 1 to 40 satellites, with or without a clock offset
#[cfg(feature = "c05")]
#[no_mangle]
pub extern "C" fn c05_satellites() {
    let n = 1 + choose(40);
    let mut o = Observations::default();
    for i in 0..n {
        let s = sv(&match i % 4 {
            0 => format!("G{:02}", 1 + i / 4),
            1 => format!("R{:02}", 1 + i / 4),
            2 => format!("E{:02}", 11 + i / 4),
            _ => format!("S{:02}", 20 + i / 4),
        });
        o.signals.push(known(s, ob("C1"), i));
        if i + 1 == n {
            let mut x = known(s, ob("S2"), 0);
            x.value = dec(int(1_000, 99_999), 3);
            o.signals.push(x);
        }
    }
    let t = epoch(4, 0, 0, 0, 0);
    if flip() {
        o = o.with_clock_offset_s(t, -0.000123456);
    }
    let mut rec = Rec::new();
    rec.insert(ObsKey { epoch: t, flag: EpochFlag::Ok }, o);
    rec.insert(ObsKey { epoch: epoch(5, 0, 0, 0, 0), flag: EpochFlag::Ok }, Observations::default().with_signal(known(sv("G01"), ob("L1"), 3)));
    round_trip(skeleton(false, &V2), rec);
}
/// any number of observables (header's list and satellites wrap)
#[cfg(feature = "c05")]
#[no_mangle]
pub extern "C" fn c05_observables() {
    observables(false, choose(23) + 1);
}
trait With {
    fn with_signal(self, s: SignalObservation) -> Self;
}
impl With for Observations {
    fn with_signal(mut self, s: SignalObservation) -> Self {
        self.signals.push(s);
        self
    }
}
