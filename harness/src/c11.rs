//! C11: sampling analysis of any strictly increasing epochs
use crate::util::*;
use rinex::observation::{Observations, Record as ObsRecord};
use rinex::prelude::obs::{EpochFlag, ObsKey};

fn skeleton() -> Rinex {
    let mut h = vec![];
    hl(&mut h, "     3.04           OBSERVATION DATA    G: GPS", "RINEX VERSION / TYPE");
    hl(&mut h, "G    1 C1C", "SYS / # / OBS TYPES");
    hl(&mut h, "  2021    12    21     0     0    0.0000000     GPS", "TIME OF FIRST OBS");
    hl(&mut h, "", "END OF HEADER");
    match parse(&h) {
        Ok(r) => r,
        Err(_) => {
            check(false, "header parses");
            loop {}
        }
    }
}
fn ns(n: i64) -> Duration {
    Duration::from_truncated_nanoseconds(n)
}
/// epochs, and their differences in nanoseconds
fn timeline(n: usize, ts: TimeScale) -> (Vec<Epoch>, Vec<i64>) {
    let base = Epoch::from_duration(Duration::from_total_nanoseconds(2200i128 * 7 * 86_400_000_000_000), ts);
    let mut t = int(0, 86_400_000_000_000);
    let (mut e, mut d) = (vec![], vec![]);
    for i in 0..n {
        if i > 0 {
            // from one nanosecond to 10 days
            let dt = int(1, 864_000_000_000_000);
            d.push(dt);
            t += dt;
        }
        e.push(base + ns(t));
    }
    (e, d)
}
fn build(epochs: &[Epoch]) -> Rinex {
    let mut r = skeleton();
    let mut rec = ObsRecord::new();
    for (i, e) in epochs.iter().enumerate() {
        let flag = if i % 2 == 0 { EpochFlag::Ok } else { EpochFlag::PowerFailure };
        rec.insert(ObsKey { epoch: *e, flag }, Observations::default());
    }
    r.record = Record::ObsRecord(rec);
    r
}
fn scale() -> TimeScale {
    [TimeScale::GPST, TimeScale::UTC][choose(2)]
}
fn size() -> usize {
    if thorough() {
        choose(6)
    } else {
        choose(5)
    }
}
#[no_mangle]
pub extern "C" fn c11_histogram() {
    let ts = scale();
    let (e, d) = timeline(size(), ts);
    let r = build(&e);
    let hist: Vec<(Duration, usize)> = r.sampling_histogram().collect();
    let mut total = 0;
    for (i, (dt, n)) in hist.iter().enumerate() {
        total += n;
        check(*n > 0, "no empty bin");
        for (other, _) in hist.iter().take(i) {
            check(other != dt, "one bin per difference");
        }
        let mut same = 0;
        for x in &d {
            same += (ns(*x) == *dt) as usize;
        }
        check(same == *n, "each bin counts the differences of its length");
    }
    observe(hist.len() as u64);
    observe(total as u64);
    check(total == d.len(), "every difference is counted once");
    reach("histogram");
}
#[no_mangle]
pub extern "C" fn c11_dominant() {
    let ts = scale();
    let (e, d) = timeline(size(), ts);
    let r = build(&e);
    let mut equal = true;
    for x in &d {
        equal &= *x == d[0];
    }
    check(r.steady_sampling() == ((!d.is_empty()) & equal), "steady exactly when all the differences are the same");
    check(r.first_epoch() == e.first().copied(), "first epoch");
    check(r.last_epoch() == e.last().copied(), "last epoch");
    let mut sum = 0;
    for x in &d {
        sum += *x;
    }
    check(r.duration() == if e.is_empty() { None } else { Some(ns(sum)) }, "duration of the record");
    match r.dominant_sampling_interval() {
        None => check(d.is_empty(), "dominant interval exists"),
        Some(dt) => {
            let count = |dt: Duration| {
                let mut n = 0;
                for x in &d {
                    n += (ns(*x) == dt) as usize;
                }
                n
            };
            let n = count(dt);
            check(n > 0, "dominant interval is a difference of the record");
            for x in &d {
                check(count(ns(*x)) <= n, "no difference is more frequent than the dominant one");
            }
        }
    }
    reach("dominant");
}
fn gaps(r: &Rinex, e: &[Epoch], d: &[i64], tolerance: Option<Duration>, limit: Duration) {
    let got: Vec<(Epoch, Duration)> = r.data_gaps(tolerance).collect();
    observe(got.len() as u64);
    let mut k = 0;
    for i in 0..d.len() {
        if fork(ns(d[i]) > limit) {
            match got.get(k) {
                Some((t, dt)) => {
                    check((*t == e[i]) & (*dt == ns(d[i])), "a gap starts at the epoch that precedes it and lasts the difference");
                }
                None => check(false, "gap reported"),
            }
            k += 1;
        }
    }
    check(k == got.len(), "only gaps larger than the tolerance are reported");
}
/// any tolerance
#[no_mangle]
pub extern "C" fn c11_gaps() {
    let ts = scale();
    let (e, d) = timeline(size(), ts);
    let r = build(&e);
    let tol = ns(int(0, 1_000_000_000_000_000));
    gaps(&r, &e, &d, Some(tol), tol);
    reach("gaps");
}
/// the dominant interval is the tolerance by default
#[no_mangle]
pub extern "C" fn c11_default_gaps() {
    let ts = scale();
    let (e, d) = timeline(size(), ts);
    let mut r = build(&e);
    // what the header says must not matter
    if flip() {
        r.header.sampling_interval = Some(ns(int(1, 1_000_000_000_000_000)));
    }
    match r.dominant_sampling_interval() {
        Some(dt) => gaps(&r, &e, &d, None, dt),
        None => check(r.data_gaps(None).count() == 0, "no gap without a difference"),
    }
    reach("gaps");
}
