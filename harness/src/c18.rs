//! C18: ephemeris selection returns a valid, closest ephemeris
use crate::util::*;
use rinex::navigation::{Ephemeris, NavFrame, NavFrameType, NavKey, NavMessageType, OrbitItem};
use std::collections::BTreeMap;

const WEEK: u32 = 2200;

fn skeleton() -> Rinex {
    let mut h = vec![];
    hl(&mut h, "     3.04           N: GNSS NAV DATA    M: MIXED", "RINEX VERSION / TYPE");
    hl(&mut h, "", "END OF HEADER");
    match parse(&h) {
        Ok(r) => r,
        Err(_) => {
            check(false, "header parses");
            loop {}
        }
    }
}
/// seconds of week to instant, in the timescale of the constellation
fn instant(ts: TimeScale, s: i64) -> Epoch {
    // weeks are counted as GPS does, GST starts with week 1024
    let w = if ts == TimeScale::GST { WEEK - 1024 } else { WEEK };
    let d = Duration::from_total_nanoseconds(w as i128 * 7 * 86_400_000_000_000) + Duration::from_truncated_nanoseconds(s * 1_000_000_000);
    Epoch::from_duration(d, ts)
}
fn entry(sat: &str, ts: TimeScale, toc: i64, toe: i64, id: i64) -> (NavKey, NavFrame) {
    let mut e = Ephemeris { clock_bias: id as f64, ..Default::default() };
    e = e.with_week(WEEK);
    e = e.with_orbit("toe", OrbitItem::from(dec(toe, 0)));
    let k = NavKey { epoch: instant(ts, toc), sv: sv(sat), msgtype: NavMessageType::LNAV, frmtype: NavFrameType::Ephemeris };
    (k, NavFrame::EPH(e))
}
fn timescale(s: &str) -> TimeScale {
    match &s[..1] {
        "E" => TimeScale::GST,
        "C" => TimeScale::BDT,
        "J" => TimeScale::QZSST,
        _ => TimeScale::GPST,
    }
}
#[no_mangle]
pub extern "C" fn c18_selection() {
    let (sat, other, max) = [("G07", "G08", 7200), ("J02", "J03", 7200), ("E07", "G07", 10800), ("C07", "C08", 21600)][choose(4)];
    let ts = timescale(sat);
    let n = if thorough() { 3 } else { 2 };
    let mut r = skeleton();
    let mut rec: BTreeMap<NavKey, NavFrame> = BTreeMap::new();
    let mut toc = vec![];
    let mut toe = vec![];
    // the others: around the middle of the week
    let base = 300_000;
    for i in 0..n {
        let c = base + int(-30_000, 30_000);
        // the time of ephemeris may follow, or precede, the clock's
        let e = if flip() { c } else { c + int(-4000, 4000) };
        toc.push(c);
        toe.push(e);
        let (k, f) = entry(sat, ts, c, e, i as i64 + 1);
        for j in 0..i {
            assume(toc[j] != c);
        }
        rec.insert(k, f);
    }
    // another satellite
    let (k, f) = entry(other, timescale(other), base, base, 9);
    rec.insert(k, f);
    r.record = Record::NavRecord(rec);
    let t = base + int(-40_000, 60_000);
    // ends of the validity period are left open
    for i in 0..n {
        assume((t != toe[i]) & (t - toe[i] != max));
    }
    let got = r.nav_ephemeris_selection(sv(sat), instant(ts, t));
    let valid: Vec<bool> = (0..n).map(|i| (t >= toc[i]) & (t > toe[i]) & (t - toe[i] < max)).collect();
    match got {
        None => {
            let mut any = false;
            for v in &valid {
                any |= *v;
            }
            check(!any, "an ephemeris is valid: one is selected");
            observe(0);
        }
        Some((c, e, eph)) => {
            let id = eph.clock_bias as usize;
            observe(id as u64);
            check(id >= 1 && id <= n, "of that satellite");
            if id >= 1 && id <= n {
                let i = id - 1;
                check(valid[i], "valid at that time");
                check(c == instant(ts, toc[i]), "time of clock");
                let f = if ts == TimeScale::BDT { TimeScale::BDT } else { TimeScale::GPST };
                check(e.duration == instant(f, toe[i]).duration, "time of ephemeris");
                for j in 0..n {
                    check(!valid[j] | (t - toc[j] >= t - toc[i]), "no other valid one is closer");
                }
            }
        }
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c18_sbas() {
    let n = if thorough() { 4 } else { 3 };
    let mut r = skeleton();
    let mut rec: BTreeMap<NavKey, NavFrame> = BTreeMap::new();
    let mut toc = vec![];
    let base = 300_000;
    for i in 0..n {
        let c = base + int(-200_000, 200_000);
        for j in 0..i {
            assume(toc[j] != c);
        }
        toc.push(c);
        let (k, f) = entry("S36", TimeScale::GPST, c, 0, i as i64 + 1);
        rec.insert(k, f);
    }
    let (k, f) = entry("S24", TimeScale::GPST, base, base, 9);
    rec.insert(k, f);
    r.record = Record::NavRecord(rec);
    let t = base + int(-250_000, 250_000);
    match r.nav_ephemeris_selection(sv("S36"), instant(TimeScale::GPST, t)) {
        None => check(false, "a geostationary vehicle always has one"),
        Some((c, e, eph)) => {
            let id = eph.clock_bias as usize;
            observe(id as u64);
            check(id >= 1 && id <= n, "of that satellite");
            if id >= 1 && id <= n {
                let i = id - 1;
                let far = |x: i64| if x < 0 { -x } else { x };
                check(c == instant(TimeScale::GPST, toc[i]) && e == c, "time of publication");
                for j in 0..n {
                    check(far(t - toc[j]) >= far(t - toc[i]), "no other is closer");
                }
            }
        }
    }
    reach("end");
}
/// no entry for that satellite, or a constellation that has no such record
#[no_mangle]
pub extern "C" fn c18_none() {
    let mut r = skeleton();
    let mut rec: BTreeMap<NavKey, NavFrame> = BTreeMap::new();
    let c = 300_000 + int(-30_000, 30_000);
    let (have, want) = [("G07", "G08"), ("G07", "E07"), ("S36", "S24"), ("C07", "G07")][choose(4)];
    let (k, f) = entry(have, timescale(have), c, c, 1);
    rec.insert(k, f);
    r.record = Record::NavRecord(rec);
    let t = 300_000 + int(-60_000, 60_000);
    check(r.nav_ephemeris_selection(sv(want), instant(timescale(want), t)).is_none(), "nothing for other satellites");
    reach("end");
}
/// the time of ephemeris is the week and second of week of the message
#[no_mangle]
pub extern "C" fn c18_toe() {
    let sat = ["G07", "J02", "E07", "C07"][choose(4)];
    let s = if flip() { 0 } else { int(1, 604_799) };
    let mut h = vec![];
    hl(&mut h, "     3.04           N: GNSS NAV DATA    M: MIXED", "RINEX VERSION / TYPE");
    hl(&mut h, "", "END OF HEADER");
    h.extend_from_slice(sat.as_bytes());
    h.extend_from_slice(b" 2022 03 06 00 00 00");
    let word = |out: &mut Vec<u8>, v: i64, e: u8| {
        // d.dddddd000000E+0e
        let mut p = 1;
        for _ in 0..e {
            p *= 10;
        }
        out.push(b' ');
        out.push(b'0' + (v / p % 10) as u8);
        out.push(b'.');
        for i in 0..12 {
            if i < e {
                p /= 10;
                out.push(b'0' + (v / p % 10) as u8);
            } else {
                out.push(b'0');
            }
        }
        out.extend_from_slice(b"E+0");
        out.push(if e > 0 && v == 0 { b'0' } else { b'0' + e });
    };
    for _ in 0..3 {
        word(&mut h, 1, 0);
    }
    for i in 0..26 {
        if i % 4 == 0 {
            h.extend_from_slice(b"\n    ");
        }
        match i {
            8 if s == 0 => h.extend_from_slice(b" 0.000000000000E+00"),
            8 => word(&mut h, s, 5),
            18 => word(&mut h, WEEK as i64, 3),
            _ => word(&mut h, 1, 0),
        }
    }
    h.push(b'\n');
    match parse(&h) {
        Ok(r) => {
            let f = if sat == "C07" { TimeScale::BDT } else { TimeScale::GPST };
            match r.nav_ephemeris_frames_iter().next() {
                Some((k, e)) => {
                    check(k.sv == sv(sat), "satellite");
                    match e.toe(timescale(sat)) {
                        Some(t) => {
                            check(t.time_scale == f, "timescale");
                            check(t.duration == instant(f, s).duration, "week and seconds");
                        }
                        None => check(false, "time of ephemeris"),
                    }
                }
                None => check(false, "ephemeris"),
            };
        }
        Err(_) => check(false, "parses"),
    }
    reach("end");
}
