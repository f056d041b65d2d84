//! C13: signal combinations pair the right signals
use crate::util::*;
use rinex::carrier::Carrier;
use rinex::observation::Record as ObsRecord;
use rinex::prelude::obs::{Combination, CombinationKey, EpochFlag, ObsKey, Observations, SignalObservation};
use std::collections::BTreeMap;

const ALL: [Combination; 4] = [Combination::GeometryFree, Combination::IonosphereFree, Combination::WideLane, Combination::NarrowLane];

fn skeleton() -> Rinex {
    let mut h = vec![];
    hl(&mut h, "     3.04           OBSERVATION DATA    M: MIXED", "RINEX VERSION / TYPE");
    hl(&mut h, "G    1 C1C", "SYS / # / OBS TYPES");
    hl(&mut h, "  2021    12    21     0     0    0.0000000     GPS", "TIME OF FIRST OBS");
    hl(&mut h, "", "END OF HEADER");
    match parse(&h) {
        Ok(r) => r,
        Err(_) => {
            check(false, "header parses");
            loop {}
        }
    }
}
#[derive(Clone)]
struct Sig {
    sat: SV,
    /// 'C' or 'L' first
    code: &'static str,
    v: f64,
}
impl Sig {
    fn phase(&self) -> bool {
        self.code.starts_with('L')
    }
    fn carrier(&self) -> Option<Carrier> {
        if self.code.starts_with('C') || self.code.starts_with('L') || self.code.starts_with('P') {
            Carrier::from_observable(self.sat.constellation, &ob(self.code)).ok()
        } else {
            None
        }
    }
    fn pivot(&self) -> bool {
        match self.carrier() {
            // the reference of each system (BeiDou: B1I)
            Some(c) => c == Carrier::L1 || c == Carrier::E1 || c == Carrier::G1(None) || c == Carrier::B2I,
            None => false,
        }
    }
}
type Rec = Vec<(ObsKey, Vec<Sig>)>;
fn build(rec: &Rec) -> Rinex {
    let mut r = skeleton();
    let mut m = ObsRecord::new();
    for (k, s) in rec {
        m.insert(*k, Observations { clock: None, signals: s.iter().map(|s| SignalObservation::new(s.sat, ob(s.code), s.v)).collect() });
    }
    r.record = Record::ObsRecord(m);
    r
}
/// a - b, a phase being converted to a length
fn formula(c: Combination, lhs: &Sig, reference: &Sig) -> f64 {
    let (cl, cr) = (lhs.carrier().unwrap(), reference.carrier().unwrap());
    let (f, f1) = (cl.frequency(), cr.frequency());
    let (x, x1) = if lhs.phase() { (lhs.v * cl.wavelength(), reference.v * cr.wavelength()) } else { (lhs.v, reference.v) };
    match c {
        Combination::GeometryFree => {
            if lhs.phase() {
                x1 - x
            } else {
                x - x1
            }
        }
        Combination::IonosphereFree => (f1 * f1 * x1 - f * f * x) / (f1 * f1 - f * f),
        Combination::WideLane => (f1 * x1 - f * x) / (f1 - f),
        _ => (f1 * x1 + f * x) / (f1 + f),
    }
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-3
}
fn key(k: &ObsKey, lhs: &Sig, reference: &Sig) -> CombinationKey {
    CombinationKey { epoch: k.epoch, flag: k.flag, sv: lhs.sat, lhs: ob(lhs.code), reference: ob(reference.code) }
}
/// each signal other than a reference is combined once
fn verify(c: Combination, rec: &Rec, got: &BTreeMap<CombinationKey, f64>) {
    let mut n = 0;
    for (k, sigs) in rec {
        for s in sigs {
            if s.carrier().is_none() || s.pivot() {
                continue;
            }
            let mut found = 0;
            let mut possible = false;
            for p in sigs {
                if p.sat != s.sat || !p.pivot() || p.phase() != s.phase() {
                    continue;
                }
                possible = true;
                if let Some(v) = got.get(&key(k, s, p)) {
                    found += 1;
                    observe_f(*v);
                    check(close(*v, formula(c, s, p)), "value of the combination of the signals it names");
                }
            }
            check(found == possible as usize, "a signal is combined once when its reference is there");
            n += found;
        }
    }
    check(n == got.len(), "nothing else is reported");
}
/// the same modulation must be there as phase and code
fn verify_mw(rec: &Rec, got: &BTreeMap<CombinationKey, f64>) {
    let mut n = 0;
    for (k, sigs) in rec {
        for s in sigs {
            if s.carrier().is_none() || s.pivot() || !s.phase() {
                continue;
            }
            let mut found = 0;
            let mut possible = false;
            for p in sigs {
                if p.sat != s.sat || !p.pivot() || !p.phase() {
                    continue;
                }
                // code of the same modulation
                let code = sigs.iter().find(|q| q.sat == s.sat && !q.phase() && q.carrier().is_some() && q.code.len() == 3 && q.code[1..] == s.code[1..]);
                let Some(code) = code else { continue };
                let refs: Vec<&Sig> = sigs.iter().filter(|q| q.sat == s.sat && !q.phase() && q.pivot()).collect();
                if refs.is_empty() {
                    continue;
                }
                possible = true;
                if let Some(v) = got.get(&key(k, s, p)) {
                    found += 1;
                    let mut ok = false;
                    for r in refs {
                        ok |= close(*v, formula(Combination::WideLane, s, p) - formula(Combination::NarrowLane, code, r));
                    }
                    check(ok, "value of the combination of the signals it names");
                }
            }
            check(found == possible as usize, "a signal is combined once when the others are there");
            n += found;
        }
    }
    check(n == got.len(), "nothing else is reported");
}
fn value(phase: bool) -> f64 {
    // up to 100 000 km
    dec(int(-100_000_000_000, if phase { 500_000_000_000 } else { 100_000_000_000 }), 3)
}
fn at(n: i64) -> Epoch {
    Epoch::from_duration(Duration::from_total_nanoseconds(2200i128 * 7 * 86_400_000_000_000) + Duration::from_truncated_nanoseconds(n), TimeScale::GPST)
}
fn sig(sat: &str, code: &'static str) -> Sig {
    Sig { sat: sv(sat), code, v: value(code.starts_with('L')) }
}
fn which() -> Combination {
    ALL[choose(4)]
}
/// satellite, its reference and another signal, code and phase
const PAIRS: [(&str, [&str; 4]); 13] = [
    ("G07", ["C1C", "L1C", "C2W", "L2W"]),
    ("G07", ["C1W", "L1W", "C5Q", "L5Q"]),
    ("E12", ["C1C", "L1C", "C5Q", "L5Q"]),
    ("E12", ["C1X", "L1X", "C7X", "L7X"]),
    ("E12", ["C1A", "L1A", "C6C", "L6C"]),
    ("E12", ["C1C", "L1C", "C8Q", "L8Q"]),
    ("R09", ["C1P", "L1P", "C2P", "L2P"]),
    ("R09", ["C1C", "L1C", "C3Q", "L3Q"]),
    ("J02", ["C1C", "L1C", "C2L", "L2L"]),
    ("J02", ["C1Z", "L1Z", "C6Z", "L6Z"]),
    ("S23", ["C1C", "L1C", "C5I", "L5I"]),
    ("C30", ["C2I", "L2I", "C6I", "L6I"]),
    ("G07", ["P1", "L1", "P2", "L2"]),
];
/// any subset of the signals of one satellite, in any order; another one is complete
#[no_mangle]
pub extern "C" fn c13_pairs() {
    let (sat, codes) = PAIRS[choose(PAIRS.len())];
    let c = which();
    let order = [[0, 1, 2, 3], [2, 3, 0, 1], [1, 0, 3, 2], [3, 0, 2, 1]][choose(4)];
    let mut s: Vec<Sig> = vec![];
    let first = flip();
    let other = |s: &mut Vec<Sig>| {
        for code in codes {
            let mut q = sig(sat, code);
            q.sat = SV::new(q.sat.constellation, q.sat.prn + 1);
            s.push(q);
        }
    };
    if first {
        other(&mut s);
    }
    for i in order {
        if flip() {
            s.push(sig(sat, codes[i]));
        }
    }
    if !first {
        other(&mut s);
    }
    let rec = vec![(ObsKey { epoch: at(0), flag: EpochFlag::Ok }, s)];
    let got = build(&rec).signals_combination(c);
    verify(c, &rec, &got);
    reach("combined");
}
/// signals of the same satellite at several times: any interval
#[no_mangle]
pub extern "C" fn c13_epochs() {
    let c = which();
    let mut rec: Rec = vec![];
    let n = if thorough() { 3 } else { 2 };
    let mut t = 0;
    for i in 0..n {
        if i > 0 {
            t += int(1, 100_000_000_000);
        }
        let mut s = vec![];
        for code in ["C1C", "L1C", "C2W", "L2W"] {
            if flip() {
                s.push(sig("G07", code));
            }
        }
        rec.push((ObsKey { epoch: at(t), flag: if i == 1 { EpochFlag::PowerFailure } else { EpochFlag::Ok } }, s));
    }
    let mut r = build(&rec);
    if flip() {
        r.header.sampling_interval = Some(Duration::from_truncated_nanoseconds(30_000_000_000));
    }
    let got = r.signals_combination(c);
    verify(c, &rec, &got);
    reach("combined");
}
/// one time, two flags: both are epochs of their own
#[no_mangle]
pub extern "C" fn c13_flags() {
    let c = which();
    let mut rec: Rec = vec![];
    for flag in [EpochFlag::Ok, EpochFlag::CycleSlip] {
        let mut s = vec![];
        for code in ["C1C", "L1C", "C2W", "L2W"] {
            if flip() {
                s.push(sig("G07", code));
            }
        }
        rec.push((ObsKey { epoch: at(0), flag }, s));
    }
    let got = build(&rec).signals_combination(c);
    verify(c, &rec, &got);
    reach("combined");
}
/// several references, several frequencies, other physics
#[no_mangle]
pub extern "C" fn c13_many() {
    let c = which();
    let list = ["C1C", "L1C", "D1C", "C1W", "L1W", "C2W", "L2W", "S2W", "C5Q", "L5Q", "C9Z", "L9Z"];
    let from = choose(4) * 3;
    let reversed = flip();
    let mut s = vec![];
    for i in 0..12 {
        let i = if reversed { 11 - i } else { i };
        let code = list[(i + from) % 12];
        if ["D1C", "S2W", "C9Z", "L9Z"].contains(&code) || flip() {
            s.push(sig("G07", code));
        }
    }
    let rec = vec![(ObsKey { epoch: at(0), flag: EpochFlag::Ok }, s)];
    let got = build(&rec).signals_combination(c);
    verify(c, &rec, &got);
    reach("combined");
}
/// Melbourne-Wubbena
#[no_mangle]
pub extern "C" fn c13_mw() {
    let mut rec: Rec = vec![];
    let systems = [("G07", ["C1C", "L1C", "C2W", "L2W", "C5Q", "L5Q"]), ("E12", ["C1C", "L1C", "C5Q", "L5Q", "C7Q", "L7Q"]), ("R09", ["C1C", "L1C", "C2P", "L2P", "C2C", "L2C"])];
    let (sat, codes) = systems[choose(3)];
    let reversed = flip();
    // a complete satellite, before or after
    let other = choose(3);
    let mut s = vec![];
    if other == 1 {
        for code in systems[0].1 {
            s.push(sig("G01", code));
        }
    }
    for i in 0..6 {
        if flip() {
            s.push(sig(sat, codes[if reversed { 5 - i } else { i }]));
        }
    }
    if other == 2 {
        for code in systems[0].1 {
            s.push(sig("G20", code));
        }
    }
    rec.push((ObsKey { epoch: at(0), flag: EpochFlag::Ok }, s));
    let got = build(&rec).signals_combination(Combination::MelbourneWubbena);
    verify_mw(&rec, &got);
    reach("combined");
}
/// Melbourne-Wubbena, 2 epochs
#[no_mangle]
pub extern "C" fn c13_mw_epochs() {
    let mut rec: Rec = vec![];
    let mut t = 0;
    for i in 0..2 {
        if i > 0 {
            t += int(1, 100_000_000_000);
        }
        let mut s = vec![];
        for code in ["C1C", "L1C", "C2W", "L2W"] {
            if flip() {
                s.push(sig("G07", code));
            }
        }
        rec.push((ObsKey { epoch: at(t), flag: EpochFlag::Ok }, s));
    }
    let got = build(&rec).signals_combination(Combination::MelbourneWubbena);
    verify_mw(&rec, &got);
    reach("combined");
}
