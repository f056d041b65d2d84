//! C12: observation iterators partition the record
use crate::util::*;
use rinex::carrier::Carrier;
use rinex::observation::Record as ObsRecord;
use rinex::prelude::obs::{ClockObservation, EpochFlag, LliFlags, ObsKey, Observations, SignalObservation, SNR};

const FLAGS: [EpochFlag; 7] = [
    EpochFlag::Ok,
    EpochFlag::PowerFailure,
    EpochFlag::AntennaBeingMoved,
    EpochFlag::NewSiteOccupation,
    EpochFlag::HeaderInformationFollows,
    EpochFlag::ExternalEvent,
    EpochFlag::CycleSlip,
];
/// satellite, observables of every physics
const SETS: [(&str, [&str; 6]); 10] = [
    ("G07", ["C1C", "L1C", "D1C", "S1C", "C2W", "L2W"]),
    ("R09", ["C1P", "L1P", "D1P", "S1P", "C2C", "L2C"]),
    ("E12", ["C1C", "L1C", "D5Q", "S5Q", "C7Q", "L7Q"]),
    ("C30", ["C2I", "L2I", "D6I", "S7I", "C6I", "L6I"]),
    ("J02", ["C1C", "L1Z", "D2L", "S5Q", "C6Z", "L6Z"]),
    ("I04", ["C5A", "L5A", "D5A", "S9A", "C9A", "L9A"]),
    ("S23", ["C1C", "L1C", "D1C", "S5I", "C5I", "L5I"]),
    // revision 2
    ("G08", ["P1", "L1", "D1", "S1", "P2", "L2"]),
    ("R10", ["C1", "L1", "D2", "S2", "P2", "L2"]),
    // not the name of any carrier
    ("G09", ["C9X", "L9X", "D9X", "S9X", "C3X", "L3X"]),
];
/// 'C' 'L' 'D' or 'S'
fn physics(code: &str) -> u8 {
    match code.as_bytes()[0] {
        b'P' => b'C',
        b => b,
    }
}
fn skeleton() -> Rinex {
    let mut h = vec![];
    hl(&mut h, "     3.04           OBSERVATION DATA    M: MIXED", "RINEX VERSION / TYPE");
    hl(&mut h, "G    1 C1C", "SYS / # / OBS TYPES");
    hl(&mut h, "  2021    12    21     0     0    0.0000000     GPS", "TIME OF FIRST OBS");
    hl(&mut h, "", "END OF HEADER");
    match parse(&h) {
        Ok(r) => r,
        Err(_) => {
            check(false, "header parses");
            loop {}
        }
    }
}
fn at(i: usize) -> Epoch {
    Epoch::from_gregorian(2021, 12, 21, 0, 0, 30 * i as u8, 0, TimeScale::GPST)
}
/// what was put in the record
#[derive(Clone)]
struct Item {
    key: ObsKey,
    code: &'static str,
    sig: SignalObservation,
}
struct World {
    rnx: Rinex,
    items: Vec<Item>,
    clocks: Vec<(ObsKey, f64)>,
}
/// 2 epochs (thorough: 3) of one satellite and a bit of another
fn world(sets: bool, masks: bool) -> World {
    let mut w = World { rnx: skeleton(), items: vec![], clocks: vec![] };
    let set = if sets { choose(SETS.len()) } else { 0 };
    let mut rec = ObsRecord::new();
    let n = if thorough() { 3 } else { 2 };
    for i in 0..n {
        let flag = FLAGS[if i == 0 { choose(7) } else if i == 1 { [0, 6, 1][choose(3)] } else { 0 }];
        let key = ObsKey { epoch: at(i), flag };
        let mut obs = Observations::default();
        let mut v = (i + 1) as f64 * 1000.0;
        if i == 1 && !masks {
            // receiver clock
            let mut clock = ClockObservation::default();
            clock.offset_s = 0.25;
            obs.clock = Some(clock);
            w.clocks.push((key, 0.25));
        }
        for (sat, codes) in [SETS[set], SETS[(set + 3) % SETS.len()]] {
            let first = obs.signals.is_empty();
            for (j, code) in codes.iter().enumerate() {
                if !first && j != 1 && j != 2 {
                    continue;
                }
                v += 1.0;
                let mut s = SignalObservation::new(sv(sat), ob(code), v);
                // any indicator on the phases (and one other) of the first satellite
                if first && i < 2 && (j == 1 || j == 5 || (j == 0 && i == 0)) {
                    if j == 1 || flip() {
                        s.lli = Some(LliFlags::from_bits_truncate(byte_in(0, 7)));
                    }
                    s.snr = Some(SNR::DbHz36_41);
                }
                w.items.push(Item { key, code, sig: s.clone() });
                obs.signals.push(s);
            }
        }
        rec.insert(key, obs);
    }
    w.rnx.record = Record::ObsRecord(rec);
    w
}
fn same(a: &SignalObservation, b: &SignalObservation) -> bool {
    let lli = match (a.lli, b.lli) {
        (Some(x), Some(y)) => x.bits() == y.bits(),
        (None, None) => true,
        _ => false,
    };
    (a.value == b.value) & (a.sv == b.sv) & (a.observable == b.observable) & lli & (a.snr == b.snr)
}
fn expect<'a>(w: &World, got: impl Iterator<Item = (ObsKey, &'a SignalObservation)>, keep: impl Fn(&Item) -> bool, id: &str) {
    let got: Vec<_> = got.collect();
    observe(got.len() as u64);
    let mut k = 0;
    for it in &w.items {
        if fork(keep(it)) {
            match got.get(k) {
                Some((key, s)) => {
                    check(*key == it.key, id);
                    check(same(s, &it.sig), id);
                }
                None => check(false, id),
            }
            k += 1;
        }
    }
    check(k == got.len(), id);
}
fn expect_t<'a>(w: &World, got: impl Iterator<Item = (Epoch, &'a SignalObservation)>, keep: impl Fn(&Item) -> bool, id: &str) {
    let got: Vec<_> = got.collect();
    observe(got.len() as u64);
    let mut k = 0;
    for it in &w.items {
        if fork(keep(it)) {
            match got.get(k) {
                Some((t, s)) => {
                    check(*t == it.key.epoch, id);
                    check(same(s, &it.sig), id);
                }
                None => check(false, id),
            }
            k += 1;
        }
    }
    check(k == got.len(), id);
}
#[no_mangle]
pub extern "C" fn c12_physics() {
    let w = world(true, false);
    let r = &w.rnx;
    expect(&w, r.signal_observations_iter(), |_| true, "all the signals");
    expect(&w, r.pseudo_range_observations_iter(), |i| physics(i.code) == b'C', "pseudo ranges");
    expect(&w, r.phase_range_observations_iter(), |i| physics(i.code) == b'L', "phase ranges");
    expect(&w, r.doppler_observations_iter(), |i| physics(i.code) == b'D', "dopplers");
    expect(&w, r.ssi_observations_iter(), |i| physics(i.code) == b'S', "signal strengths");
    let clocks: Vec<_> = r.clock_observations_iter().collect();
    check(clocks.len() == w.clocks.len(), "clock observations");
    for ((k, c), (key, v)) in clocks.iter().zip(&w.clocks) {
        check((k == key) & (c.offset_s == *v), "clock observations");
    }
    let keys: Vec<_> = r.observation_keys().collect();
    let mut n = 0;
    for (i, it) in w.items.iter().enumerate() {
        if i == 0 || it.key != w.items[i - 1].key {
            check(keys.get(n) == Some(&&it.key), "keys of the record");
            n += 1;
        }
    }
    check(n == keys.len(), "keys of the record");
    reach("physics");
}
/// the iterators that modify visit the same items
#[no_mangle]
pub extern "C" fn c12_mutable() {
    let mut w = world(true, false);
    let mut seen = 0;
    for (k, s) in w.rnx.signal_observations_iter_mut() {
        if let Some(it) = w.items.get(seen) {
            check((k == it.key) & same(s, &it.sig), "mutable signals");
        }
        s.value += 0.5;
        seen += 1;
    }
    check(seen == w.items.len(), "mutable signals");
    for it in w.items.iter_mut() {
        it.sig.value += 0.5;
    }
    let mut n = 0;
    for (k, c) in w.rnx.clock_observations_iter_mut() {
        check(w.clocks.get(n).map(|q| q.0) == Some(k), "mutable clocks");
        c.offset_s += 1.0;
        n += 1;
    }
    check(n == w.clocks.len(), "mutable clocks");
    check(w.rnx.clock_observations_iter().all(|(_, c)| c.offset_s == 1.25), "clocks were modified");
    expect(&w, w.rnx.signal_observations_iter(), |_| true, "signals were modified, and nothing else");
    reach("mutable");
}
#[no_mangle]
pub extern "C" fn c12_conditions() {
    let w = world(false, false);
    let r = &w.rnx;
    let ok = |i: &Item| i.key.flag == EpochFlag::Ok;
    expect_t(&w, r.signal_observations_sampling_ok_iter(), ok, "signals sampled in good conditions");
    expect_t(&w, r.pseudo_range_sampling_ok_iter(), |i| ok(i) && physics(i.code) == b'C', "pseudo ranges sampled in good conditions");
    expect_t(&w, r.phase_range_sampling_ok_iter(), |i| ok(i) && physics(i.code) == b'L', "phases sampled in good conditions");
    let anomalies: Vec<_> = r.epoch_anomalies().collect();
    let keys: Vec<_> = r.observation_keys().filter(|k| k.flag != EpochFlag::Ok).collect();
    check(anomalies == keys, "abnormal epochs are those whose flag is not Ok");
    reach("conditions");
}
#[no_mangle]
pub extern "C" fn c12_tracking() {
    let w = world(false, false);
    let r = &w.rnx;
    let bits = |i: &Item| i.sig.lli.map(|l| l.bits());
    let phase = |i: &Item| physics(i.code) == b'L';
    expect_t(
        &w,
        r.phase_range_tracking_ok_iter(),
        |i| i.key.flag == EpochFlag::Ok && phase(i) && bits(i).map(|b| b == 0).unwrap_or(true),
        "phases sampled and tracked in good conditions",
    );
    expect(&w, r.phase_cycle_slip_events(), |i| phase(i) && bits(i).map(|b| b & 1 != 0).unwrap_or(false), "cycle slips");
    expect(&w, r.phase_half_full_cycle_slip_events(), |i| phase(i) && bits(i).map(|b| b & 3 != 0).unwrap_or(false), "half and full cycle slips");
    reach("tracking");
}
/// masking by loss of lock indicators
#[no_mangle]
pub extern "C" fn c12_masking() {
    let w = world(false, true);
    let mask = byte_in(0, 7);
    let r = w.rnx.observation_phase_tracking_lli_masking(LliFlags::from_bits_truncate(mask));
    expect(
        &w,
        r.signal_observations_iter(),
        |i| physics(i.code) != b'L' || i.sig.lli.map(|l| l.bits() & mask != 0).unwrap_or(false),
        "phases that match the mask are kept, others than phases are kept",
    );
    expect(&w, w.rnx.signal_observations_iter(), |_| true, "the original is not modified");
    reach("masking");
}
/// lists of what the record is made of
#[no_mangle]
pub extern "C" fn c12_lists() {
    let w = world(true, false);
    let r = &w.rnx;
    fn once<T: PartialEq>(got: Vec<T>, want: Vec<T>, id: &str) {
        observe(got.len() as u64);
        for (i, g) in got.iter().enumerate() {
            check(want.contains(g), id);
            check(!got[..i].contains(g), id);
        }
        for x in &want {
            check(got.contains(x), id);
        }
    }
    let all = |f: &dyn Fn(&Item) -> bool| w.items.iter().filter(|i| f(i)).cloned().collect::<Vec<_>>();
    let every = all(&|_| true);
    once(r.sv_iter().collect(), every.iter().map(|i| i.sig.sv).collect(), "satellites");
    once(r.constellations_iter().collect(), every.iter().map(|i| i.sig.sv.constellation).collect(), "constellations");
    once(r.observables_iter().cloned().collect(), every.iter().map(|i| i.sig.observable.clone()).collect(), "observables");
    once(
        r.carrier_iter().collect(),
        every.iter().filter_map(|i| Carrier::from_observable(i.sig.sv.constellation, &i.sig.observable).ok()).collect(),
        "carriers",
    );
    once(
        r.signal_code_iter().collect(),
        every.iter().filter_map(|i| i.sig.observable.code()).collect(),
        "signal codes",
    );
    reach("lists");
}
