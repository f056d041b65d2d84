//! C14: observation differencing
use crate::util::*;
use rinex::meteo::{MeteoKey, Record as MeteoRecord};
use rinex::observation::Record as ObsRecord;
use rinex::prelude::obs::{EpochFlag, LliFlags, ObsKey, Observations, SignalObservation, SNR};

fn skeleton(kind: &str) -> Rinex {
    let mut h = vec![];
    hl(&mut h, &format!("     3.04           {kind}"), "RINEX VERSION / TYPE");
    if kind.starts_with('O') {
        hl(&mut h, "G    1 C1C", "SYS / # / OBS TYPES");
        hl(&mut h, "  2021    12    21     0     0    0.0000000     GPS", "TIME OF FIRST OBS");
    }
    hl(&mut h, "", "END OF HEADER");
    match parse(&h) {
        Ok(r) => r,
        Err(_) => {
            check(false, "header parses");
            loop {}
        }
    }
}
fn base(ts: TimeScale) -> Epoch {
    Epoch::from_duration(Duration::from_total_nanoseconds(2200i128 * 7 * 86_400_000_000_000), ts)
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-5
}
const SATS: [&str; 3] = ["G07", "G08", "E07"];
const OBS: [&str; 3] = ["C1C", "L1C", "L2W"];
#[derive(Clone)]
struct Sig {
    sat: usize,
    obs: usize,
    v: f64,
    lli: u8,
}
fn signal(s: &Sig) -> SignalObservation {
    let mut r = SignalObservation::new(sv(SATS[s.sat]), ob(OBS[s.obs]), s.v);
    r.lli = Some(LliFlags::from_bits_truncate(s.lli));
    r.snr = if s.obs == 0 { Some(SNR::DbHz36_41) } else { None };
    r
}
type Rec = Vec<(ObsKey, Vec<Sig>)>;
fn build(rec: &Rec) -> Rinex {
    let mut r = skeleton("OBSERVATION DATA    M: MIXED");
    let mut m = ObsRecord::new();
    for (k, s) in rec {
        m.insert(*k, Observations { clock: None, signals: s.iter().map(signal).collect() });
    }
    r.record = Record::ObsRecord(m);
    r
}
fn verify(a: &Rec, b: &Rec, r: &Rinex) {
    let rec = match r.record.as_obs() {
        Some(r) => r,
        None => {
            check(false, "observation record");
            return;
        }
    };
    check(rec.len() == a.len(), "epochs are preserved");
    for ((k, o), (key, sigs)) in rec.iter().zip(a) {
        check(k == key, "epochs are preserved");
        check(o.signals.len() == sigs.len(), "signals are preserved");
        // same epoch on the other side
        let mut other: Option<&Vec<Sig>> = None;
        for (kb, s) in b {
            if fork((kb.epoch == key.epoch) & (kb.flag == key.flag)) {
                other = Some(s);
            }
        }
        for (g, s) in o.signals.iter().zip(sigs) {
            check(g.sv == sv(SATS[s.sat]), "satellite is preserved");
            check(g.observable == ob(OBS[s.obs]), "observable is preserved");
            check(g.lli.map(|l| l.bits()) == Some(s.lli), "indicators are preserved");
            check(g.snr.is_some() == (s.obs == 0), "signal strength is preserved");
            let m = other.and_then(|l| l.iter().find(|q| q.sat == s.sat && q.obs == s.obs));
            match m {
                Some(m) => check(close(g.value, s.v - m.v), "matching observations are subtracted"),
                None => check(g.value == s.v, "observations without counterpart are left unchanged"),
            }
            observe_f(g.value);
        }
    }
}
fn rec(n: usize, t: i64, all: bool, flags: bool, shift: bool) -> Rec {
    let mut r = vec![];
    let mut t = t;
    for i in 0..n {
        if i > 0 {
            t += 30_000_000_000;
        }
        let flag = if flags && flip() { EpochFlag::PowerFailure } else { EpochFlag::Ok };
        let mut s = vec![];
        // any subset, in either order
        let reversed = shift && flip();
        for j in 0..5 {
            let j = if reversed { 4 - j } else { j };
            let (sat, obs) = [(0, 0), (0, 1), (0, 2), (1, 1), (2, 1)][j];
            if all || flip() {
                s.push(Sig { sat, obs, v: dec(int(-99_999_999_999, 99_999_999_999), 3), lli: byte_in(0, 7) });
            }
        }
        r.push((ObsKey { epoch: base(TimeScale::GPST) + Duration::from_truncated_nanoseconds(t), flag }, s));
    }
    r
}
/// any subset of the signals on each side
#[no_mangle]
pub extern "C" fn c14_signals() {
    let a = rec(1, 0, false, true, true);
    let b = rec(1, 0, false, true, true);
    let (x, y) = (build(&a), build(&b));
    let r = x.observation_substract(&y);
    verify(&a, &b, &r);
    verify(&a, &vec![], &x);
    verify(&b, &vec![], &y);
    reach("subtracted");
}
/// any times, 2 (thorough 3) epochs on each side
#[no_mangle]
pub extern "C" fn c14_epochs() {
    let n = if thorough() { 3 } else { 2 };
    let a = rec(1 + choose(n), 0, true, true, false);
    let b = rec(1 + choose(n), int(-100_000_000_000, 100_000_000_000), true, false, true);
    let mut x = build(&a);
    x.observation_substract_mut(&build(&b));
    verify(&a, &b, &x);
    reach("subtracted");
}
/// from itself
#[no_mangle]
pub extern "C" fn c14_self() {
    let n = if thorough() { 3 } else { 2 };
    let a = rec(1 + choose(n), 0, false, true, true);
    let x = build(&a);
    let r = x.observation_substract(&x);
    let mut n = 0;
    for (_, s) in r.signal_observations_iter() {
        check(s.value == 0.0, "zero");
        n += 1;
    }
    check(n == a.iter().map(|q| q.1.len()).sum::<usize>(), "signals are preserved");
    reach("subtracted");
}
#[no_mangle]
pub extern "C" fn c14_meteo() {
    let build = |c: &[(i64, usize, f64)]| {
        let mut r = skeleton("METEOROLOGICAL DATA");
        let mut m = MeteoRecord::new();
        for (t, o, v) in c {
            m.insert(MeteoKey { epoch: base(TimeScale::UTC) + Duration::from_truncated_nanoseconds(*t), observable: ob(["PR", "TD", "HR"][*o]) }, *v);
        }
        r.record = Record::MeteoRecord(m);
        r
    };
    let cells = |t: i64| {
        let mut c = vec![];
        for i in 0..2 {
            for o in 0..3 {
                if o == 0 || flip() {
                    c.push((t + i * 30_000_000_000, o, dec(int(-9999, 99_999), 1)));
                }
            }
        }
        c
    };
    let a = cells(0);
    let b = cells(int(-100_000_000_000, 100_000_000_000));
    let r = build(&a).observation_substract(&build(&b));
    match r.record.as_meteo() {
        Some(rec) => {
            check(rec.len() == a.len(), "observations are preserved");
            for (t, o, v) in &a {
                let k = MeteoKey { epoch: base(TimeScale::UTC) + Duration::from_truncated_nanoseconds(*t), observable: ob(["PR", "TD", "HR"][*o]) };
                let mut want = *v;
                for (u, p, w) in &b {
                    if o == p && fork(t == u) {
                        want = *v - *w;
                    }
                }
                match rec.get(&k) {
                    Some(g) => check(close(*g, want), "matching observations are subtracted, others are unchanged"),
                    None => check(false, "observations are preserved"),
                }
            }
        }
        None => check(false, "meteo record"),
    }
    reach("subtracted");
}
#[no_mangle]
pub extern "C" fn c14_doris() {
    use rinex::doris::{DorisKey, Observations, SignalKey, SignalObservation, Station};
    // numbered in any order in each file
    let station = |i: usize, swap: bool| {
        let t = ["COLA COLOMBO                       23501S001  4   0", "THUB THULE                         43001S005  3   0"][i];
        let n = if (i == 0) != swap { 1 } else { 2 };
        match Station::from_str(&format!("D0{n}  {t}")) {
            Ok(s) => s,
            Err(_) => {
                check(false, "station");
                loop {}
            }
        }
    };
    let mk = |n: i64, i: usize| DorisKey { epoch: base(TimeScale::TAI) + Duration::from_truncated_nanoseconds(n), flag: if i == 0 { EpochFlag::Ok } else { EpochFlag::PowerFailure } };
    type Cell = (usize, usize, f64, u8);
    let cells = || {
        let mut r: Vec<Cell> = vec![];
        for (s, o) in [(0, 0), (0, 1), (1, 0)] {
            if flip() {
                r.push((s, o, dec(int(-99_999_999_999, 99_999_999_999), 3), byte_in(0, 9)));
            }
        }
        r
    };
    let swap = flip();
    let build = |k: &DorisKey, c: &Vec<Cell>, swap: bool| {
        let mut r = skeleton("DORIS");
        let mut m = rinex::doris::Record::new();
        let mut o = Observations::default();
        for (s, b, v, f) in c {
            o.signals.insert(SignalKey { observable: ob(OBS[*b]), station: station(*s, swap) }, SignalObservation { m1: Some(*f), m2: None, value: *v });
        }
        m.insert(k.clone(), o);
        r.record = Record::DorisRecord(m);
        r
    };
    let (ka, kb) = (mk(0, choose(2)), mk(int(-100, 100), choose(2)));
    let (a, b) = (cells(), cells());
    let r = build(&ka, &a, false).observation_substract(&build(&kb, &b, swap));
    let together = fork(ka == kb);
    match r.record.as_doris() {
        Some(rec) => {
            check(rec.len() == 1, "epochs are preserved");
            match rec.get(&ka) {
                Some(o) => {
                    check(o.signals.len() == a.len(), "signals are preserved");
                    for (s, x, v, f) in &a {
                        let mut want = *v;
                        for (t, y, w, _) in &b {
                            if together && s == t && x == y {
                                want = *v - *w;
                            }
                        }
                        match o.signals.get(&SignalKey { observable: ob(OBS[*x]), station: station(*s, false) }) {
                            Some(g) => {
                                check(close(g.value, want), "matching observations are subtracted, others are unchanged");
                                check((g.m1 == Some(*f)) & g.m2.is_none(), "flags are preserved");
                            }
                            None => check(false, "signals are preserved"),
                        }
                    }
                }
                None => check(false, "epochs are preserved"),
            }
        }
        None => check(false, "doris record"),
    }
    reach("subtracted");
}
