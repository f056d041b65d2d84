//! C16: header fields survive write then parse
use crate::util::*;
use rinex::hardware::{Antenna, Receiver};


use rinex::meteo::Sensor;

fn write(h: &Header) -> Vec<u8> {
    let mut w = BufWriter::with_capacity(1 << 16, Vec::<u8>::new());
    check(h.format(&mut w).is_ok(), "formatting succeeds");
    match w.into_inner() {
        Ok(v) => {
            dump("formatted", &v);
            v
        }
        Err(_) => {
            check(false, "flush");
            vec![]
        }
    }
}
fn read(text: &[u8]) -> Option<Header> {
    dump("parsed", text);
    let mut r = BufReader::with_capacity(1 << 16, text);
    let h = Header::parse(&mut r).ok();
    check(h.is_some(), "the header parses");
    h
}
const LABELS: [&str; 24] = [
    "RINEX VERSION / TYPE", "PGM / RUN BY / DATE", "OBSERVER / AGENCY", "COMMENT", "REC # / TYPE / VERS", "ANT # / TYPE",
    "ANTENNA: DELTA H/E/N", "ANTENNA: DELTA X/Y/Z", "MARKER NAME", "MARKER NUMBER", "MARKER TYPE", "APPROX POSITION XYZ",
    "INTERVAL", "LEAP SECONDS", "GLONASS SLOT / FRQ #", "END OF HEADER", "TIME OF FIRST OBS", "TIME OF LAST OBS",
    "# / TYPES OF OBSERV", "SYS / # / OBS TYPES", "SENSOR MOD/TYPE/ACC", "SENSOR POS XYZ/H", "RCV CLOCK OFFS APPL", "SYS / SCALE FACTOR",
];
/// every line has a documented label in columns 61-80, and nothing after
fn labelled(text: &[u8]) {
    let mut last = 0;
    for line in text.split(|b| *b == b'\n') {
        if line.is_empty() {
            continue;
        }
        let mut ok = false;
        if line.len() >= 60 && line.len() <= 80 {
            let mut n = line.len();
            while n > 60 && line[n - 1] == b' ' {
                n -= 1;
            }
            for (i, l) in LABELS.iter().enumerate() {
                if &line[60..n] == l.as_bytes() {
                    ok = true;
                    last = i;
                }
            }
        }
        check(ok, "label in columns 61-80");
    }
    check(last == 15, "END OF HEADER comes last");
    check(text.ends_with(b"\n"), "last line is terminated");
}
fn rewrite(h: &Header) -> Option<Header> {
    let t = write(h);
    labelled(&t);
    read(&t)
}
fn base(t: RinexType) -> Header {
    let mut h = Header::default();
    h.rinex_type = t;
    h.version = Version::new(3, 4);
    h.constellation = match t {
        RinexType::MeteoData => None,
        _ => Some(Constellation::GPS),
    };
    h.obs = if t == RinexType::ObservationData { Some(Default::default()) } else { None };
    h.meteo = if t == RinexType::MeteoData { Some(Default::default()) } else { None };
    h
}
/// n characters, the first, one in the middle and the last are free
fn word(n: usize) -> String {
    let mut w = vec![];
    for i in 0..n {
        w.push(if i == 0 || i == n / 2 || i + 1 == n {
            let b = byte_in(b'!', b'~');
            b
        } else {
            b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcdefghijkl"[i]
        });
    }
    text(&w).to_string()
}
fn sizes(width: usize) -> usize {
    [1, 2, 7, width - 1, width][choose(5)]
}
fn some(s: &str) -> Option<String> {
    Some(s.to_string())
}
fn eq_o(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => same(a.as_bytes(), b.as_bytes()),
        (None, None) => true,
        _ => false,
    }
}
/// one text field of any content, the others present or not
#[no_mangle]
pub extern "C" fn c16_text() {
    let which = choose(12);
    let others = flip();
    let mut h = base([RinexType::ObservationData, RinexType::MeteoData][choose(2)]);
    let mut rcvr = Receiver::default().with_model("M").with_serial_number("S").with_firmware("F");
    let mut ant = Antenna::default().with_model("A").with_serial_number("5");
    let mut marker = GeodeticMarker::default().with_name("N");
    if others {
        h.program = some("prog");
        h.run_by = some("someone");
        h.date = some("20200101 000000 UTC");
        h.observer = some("me");
        h.agency = some("agency");
    }
    let (mut with_r, mut with_a, mut with_m) = (others, others, others);
    match which {
        0 => h.program = Some(word(sizes(20))),
        1 => h.run_by = Some(word(sizes(20))),
        2 => h.date = Some(word(sizes(20))),
        3 => h.observer = Some(word(sizes(20))),
        4 => h.agency = Some(word(sizes(40))),
        5 | 6 | 7 => {
            with_r = true;
            let w = word(sizes(20));
            rcvr = match which {
                5 => rcvr.with_model(&w),
                6 => rcvr.with_serial_number(&w),
                _ => rcvr.with_firmware(&w),
            };
        }
        8 | 9 => {
            with_a = true;
            let w = word(sizes(20));
            ant = if which == 8 { ant.with_model(&w) } else { ant.with_serial_number(&w) };
        }
        10 => {
            with_m = true;
            marker = marker.with_name(&word(sizes(60)));
        }
        _ => {
            let mut n = digits(5);
            n.push(b'M');
            n.extend(digits(3));
            with_m = true;
            marker = marker.with_number(text(&n));
            match marker.number() {
                Some(m) => check(same(m.as_bytes(), &n), "marker number"),
                None => check(false, "marker number"),
            }
        }
    }
    if with_r {
        h.rcvr = Some(rcvr);
    }
    if with_a {
        h.rcvr_antenna = Some(ant);
    }
    if with_m {
        h.geodetic_marker = Some(marker);
    }
    if let Some(p) = rewrite(&h) {
        check(p.rinex_type == h.rinex_type && p.version == h.version && p.constellation == h.constellation, "type");
        check(eq_o(&p.program, &h.program), "program");
        check(eq_o(&p.run_by, &h.run_by), "run by");
        check(eq_o(&p.date, &h.date), "date");
        check(eq_o(&p.observer, &h.observer), "observer");
        check(eq_o(&p.agency, &h.agency), "agency");
        match (&p.rcvr, &h.rcvr) {
            (Some(a), Some(b)) => check(same(a.model.as_bytes(), b.model.as_bytes()) & same(a.sn.as_bytes(), b.sn.as_bytes()) & same(a.firmware.as_bytes(), b.firmware.as_bytes()), "receiver"),
            (None, None) => {}
            _ => check(false, "receiver"),
        }
        match (&p.rcvr_antenna, &h.rcvr_antenna) {
            (Some(a), Some(b)) => check(same(a.model.as_bytes(), b.model.as_bytes()) & same(a.sn.as_bytes(), b.sn.as_bytes()), "antenna"),
            (None, None) => {}
            _ => check(false, "antenna"),
        }
        match (&p.geodetic_marker, &h.geodetic_marker) {
            (Some(a), Some(b)) => {
                check(same(a.name.as_bytes(), b.name.as_bytes()), "marker name");
                check(a.number() == b.number(), "marker number is kept");
            }
            (None, None) => {}
            _ => check(false, "marker"),
        }
    }
    reach("end");
}
/// comments of any length are wrapped and lose nothing
#[no_mangle]
pub extern "C" fn c16_comments() {
    let n = choose(10);
    let n = [1, 2, 30, 59, 60, 61, 62, 119, 120, 125][n];
    let mut h = base(RinexType::ObservationData);
    let mut w: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    for i in [0, 58, 59, 60, 61, 119, 120, n - 1] {
        if i < n {
            w[i] = byte_in(b'!', b'~');
        }
    }
    let before = flip();
    if before {
        h.comments.push("first comment".to_string());
    }
    h.comments.push(text(&w).to_string());
    h.comments.push("last comment".to_string());
    if let Some(p) = rewrite(&h) {
        let skip = before as usize;
        let lines = (n + 59) / 60;
        check(p.comments.len() == skip + lines + 1, "as many lines as needed");
        if p.comments.len() == skip + lines + 1 {
            let mut got = vec![];
            for c in &p.comments[skip..skip + lines] {
                got.extend_from_slice(c.as_bytes());
            }
            check(same(&got, &w), "no character lost");
            check(skip == 0 || p.comments[0] == "first comment", "in order");
            check(p.comments[skip + lines] == "last comment", "in order");
        }
    }
    reach("end");
}
/// revision, type and constellation
#[no_mangle]
pub extern "C" fn c16_version() {
    let cs = [
        Constellation::GPS, Constellation::Glonass, Constellation::Galileo, Constellation::BeiDou, Constellation::QZSS, Constellation::IRNSS,
        Constellation::SBAS, Constellation::Mixed, Constellation::EGNOS, Constellation::WAAS, Constellation::BDSBAS, Constellation::MSAS,
    ];
    let c = cs[choose(cs.len())];
    let (major, minor) = [(1, 0), (2, 0), (2, 10), (2, 11), (2, 12), (3, 0), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5), (4, 0)][choose(12)];
    let t = [RinexType::ObservationData, RinexType::NavigationData, RinexType::MeteoData][choose(3)];
    let mut h = base(t);
    h.version = Version::new(major, minor);
    if t != RinexType::MeteoData {
        h.constellation = Some(c);
    }
    if let Some(p) = rewrite(&h) {
        check(p.version == h.version, "version");
        check(p.rinex_type == t, "type");
        check(p.constellation == h.constellation, "constellation");
        check(p.obs.is_some() == (t == RinexType::ObservationData), "specific fields");
        check(p.meteo.is_some() == (t == RinexType::MeteoData), "specific fields");
    }
    reach("end");
}
const TYPES: [MarkerType; 14] = [
    MarkerType::Geodetic, MarkerType::NonGeodetic, MarkerType::NonPhysical, MarkerType::Spaceborne, MarkerType::Airborne, MarkerType::Watercraft,
    MarkerType::Groundcraft, MarkerType::FixedBuoy, MarkerType::FloatingBuoy, MarkerType::FloatingIce, MarkerType::Glacier, MarkerType::Ballistic,
    MarkerType::Animal, MarkerType::Human,
];
/// marker lines in any order, as the standard leaves it free
#[no_mangle]
pub extern "C" fn c16_marker() {
    let kind = choose(15);
    let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][choose(6)];
    let name = word([1, 4, 19, 20, 21, 60][choose(6)]);
    let mut num = digits(5);
    num.push(b'M');
    num.extend(digits(3));
    let mut h = base(RinexType::ObservationData);
    let mut m = GeodeticMarker::default().with_name(&name).with_number(text(&num));
    m.marker_type = if kind < 14 { Some(TYPES[kind]) } else { None };
    h.geodetic_marker = Some(m);
    let mut out = vec![];
    hl(&mut out, "     3.04           OBSERVATION DATA    G", "RINEX VERSION / TYPE");
    for k in order {
        match k {
            0 => hl(&mut out, &name, "MARKER NAME"),
            1 => hl(&mut out, text(&num), "MARKER NUMBER"),
            _ => {
                if kind < 14 {
                    hl(&mut out, &TYPES[kind].to_string(), "MARKER TYPE")
                }
            }
        }
    }
    hl(&mut out, "", "END OF HEADER");
    for p in [read(&out), rewrite(&h)] {
        if let Some(p) = p {
            match &p.geodetic_marker {
                Some(p) => {
                    check(same(p.name.as_bytes(), name.as_bytes()), "name");
                    match p.number() {
                        Some(n) => check(same(n.as_bytes(), &num), "number"),
                        None => check(false, "number"),
                    }
                    check(p.marker_type == if kind < 14 { Some(TYPES[kind]) } else { None }, "type");
                }
                None => check(false, "marker"),
            }
        }
    }
    reach("end");
}
/// coordinates: value, and its range by number of digits and sign
fn coord(kind: usize) -> f64 {
    let (lo, hi) = [(0, 9), (1_0000, 9_9999), (100_0000, 999_9999), (1_000_000_0000, 9_999_999_9999), (10_000_000_0000, 99_999_999_9999)][kind % 5];
    let neg = kind >= 5;
    dec(if neg { int(-hi, -lo.max(1)) } else { int(lo, hi) }, 4)
}
fn fixed(k: usize) -> f64 {
    dec([3_582_105_2910, -5_326_6000, 1234, -9_999_999_9999][k], 4)
}
#[no_mangle]
pub extern "C" fn c16_position() {
    let kind = choose(10);
    let axis = choose(3);
    let what = choose(3);
    let mut h = base([RinexType::ObservationData, RinexType::NavigationData, RinexType::MeteoData][choose(3)]);
    let mut v = [fixed(0), fixed(1), fixed(2)];
    v[axis] = coord(kind);
    let p = (v[0], v[1], v[2]);
    let q = (fixed(3), fixed(0), fixed(1));
    match what {
        0 => h.rx_position = Some(p),
        1 => {
            h.rx_position = Some(q);
            h.rcvr_antenna = Some(Antenna::default().with_model("A").with_serial_number("1").with_height(v[0]).with_eastern_component(v[1]).with_northern_component(v[2]));
        }
        _ => {
            h.rx_position = if flip() { Some(q) } else { None };
            h.rcvr_antenna = Some(Antenna::default().with_model("A").with_serial_number("1").with_base_coordinates(p).with_height(q.0).with_eastern_component(q.1).with_northern_component(q.2));
        }
    }
    let eq3 = |a: (f64, f64, f64), b: (f64, f64, f64)| (a.0 == b.0) & (a.1 == b.1) & (a.2 == b.2);
    if let Some(r) = rewrite(&h) {
        match (r.rx_position, h.rx_position) {
            (Some(a), Some(b)) => check(eq3(a, b), "position"),
            (None, None) => {}
            _ => check(false, "position"),
        }
        match (r.rcvr_antenna, &h.rcvr_antenna) {
            (Some(a), Some(b)) => {
                check(a.model == b.model && a.sn == b.sn, "antenna");
                match (a.height, a.eastern, a.northern) {
                    (Some(x), Some(y), Some(z)) => check(eq3((x, y, z), (b.height.unwrap_or(0.0), b.eastern.unwrap_or(0.0), b.northern.unwrap_or(0.0))), "eccentricities"),
                    _ => check(false, "eccentricities"),
                }
                match (a.coords, b.coords) {
                    (Some(a), Some(b)) => check(eq3(a, b), "antenna reference point"),
                    (None, None) => {}
                    _ => check(false, "antenna reference point"),
                }
            }
            (None, None) => {}
            _ => check(false, "antenna"),
        }
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c16_leap() {
    let n = choose(4);
    let range = |k: usize| [(0, 9), (10, 99), (100, 999), (1000, 9999)][k];
    let full = choose(4);
    let field = choose(4);
    let mut f = [18i64, 18, 2185, 7];
    let (lo, hi) = range(n);
    f[field] = int(lo, hi);
    let mut l = Leap::default();
    l.leap = f[0] as u32;
    if full > 0 {
        l = l.with_delta_tls(f[1] as u32).with_week(f[2] as u32).with_day(f[3] as u32);
        if full > 1 {
            l = l.with_timescale([TimeScale::GPST, TimeScale::BDT][full - 2]);
        }
    }
    let mut h = base(RinexType::ObservationData);
    h.leap = Some(l);
    if let Some(p) = rewrite(&h) {
        match p.leap {
            Some(p) => {
                check(p.leap == l.leap, "leap seconds");
                match (p.delta_tls, p.week, p.day) {
                    (Some(a), Some(b), Some(c)) => check((full > 0) & (Some(a) == l.delta_tls) & (Some(b) == l.week) & (Some(c) == l.day), "announcement"),
                    (None, None, None) => check(full == 0, "announcement"),
                    _ => check(false, "announcement"),
                }
                check(p.timescale == l.timescale, "timescale");
            }
            None => check(false, "leap seconds are kept"),
        }
    }
    reach("end");
}
/// standard lines: I6 columns and system code right after
#[no_mangle]
pub extern "C" fn c16_leap_read() {
    let n = choose(5);
    let mut f: Vec<i64> = vec![18, 18, 2185, 7];
    let k = choose(4);
    f[k] = int([0, 10, 100][choose(3)], 999).max(0);
    assume((f[k] < 10) | (f[k] > 9));
    let d = [digits(1), digits(2), digits(3)];
    let w = choose(3);
    f[k] = num(&d[w]);
    let mut out = vec![];
    hl(&mut out, "     3.05           OBSERVATION DATA    G", "RINEX VERSION / TYPE");
    let mut line = vec![];
    let cols = [1, 2, 4, 4, 4][n];
    for i in 0..cols {
        let s: Vec<u8> = if i == k { d[w].clone() } else { f[i].to_string().into_bytes() };
        for _ in s.len()..6 {
            line.push(b' ');
        }
        line.extend(s);
    }
    line.extend_from_slice([&b""[..], b"", b"", b"GPS", b"BDS"][n]);
    hl(&mut out, text(&line), "LEAP SECONDS");
    hl(&mut out, "", "END OF HEADER");
    if let Some(p) = read(&out) {
        match p.leap {
            Some(p) => {
                check(p.leap as i64 == f[0], "leap seconds");
                check(match p.delta_tls { Some(v) => (cols > 1) & (v as i64 == f[1]), None => cols < 2 }, "announcement");
                check(match p.week { Some(v) => (cols > 2) & (v as i64 == f[2]), None => cols < 3 }, "week");
                check(match p.day { Some(v) => (cols > 2) & (v as i64 == f[3]), None => cols < 3 }, "day");
                check(p.timescale == [None, None, None, Some(TimeScale::GPST), Some(TimeScale::BDT)][n], "timescale");
            }
            None => check(false, "leap seconds are read"),
        }
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c16_glonass() {
    let n = 1 + choose(24);
    let first = choose(2);
    let which = choose(3);
    let ch = int(-7, 6);
    let mut h = base(RinexType::ObservationData);
    for i in 0..n {
        let prn = (1 + (i + first * 3) % 24) as u8;
        let c = if i == [0, n / 2, n - 1][which] { ch as i8 } else { (i % 14) as i8 - 7 };
        h.glo_channels.insert(SV::new(Constellation::Glonass, prn), c);
    }
    if let Some(p) = rewrite(&h) {
        check(p.glo_channels.len() == n, "as many channels");
        for (sv, c) in &h.glo_channels {
            match p.glo_channels.get(sv) {
                Some(d) => check(c == d, "channel"),
                None => check(false, "channel is kept"),
            }
        }
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c16_interval() {
    let k = choose(8);
    // milliseconds
    let ms = [1, 20, 50, 100, 500, 1000, 30_000, 900_000][k] as i64;
    let mut h = base([RinexType::ObservationData, RinexType::MeteoData][choose(2)]);
    h.sampling_interval = Some(Duration::from_milliseconds(ms as f64));
    if let Some(p) = rewrite(&h) {
        check(p.sampling_interval == h.sampling_interval, "interval");
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c16_times() {
    let day = choose(8);
    let (y, m, d) = [(1980, 1, 6), (1999, 12, 31), (2000, 1, 1), (2020, 2, 29), (2021, 10, 9), (2022, 1, 10), (2023, 12, 1), (2024, 12, 31)][day];
    let (hh, mm, ss) = (int(0, 23), int(0, 59), int(0, 59));
    let c = choose(5);
    let ts = [TimeScale::GPST, TimeScale::GST, TimeScale::BDT, TimeScale::QZSST, TimeScale::UTC][c];
    let gnss = [Constellation::GPS, Constellation::Galileo, Constellation::BeiDou, Constellation::QZSS, Constellation::Glonass][c];
    let ns = [0, 100, 999_999_900, 500_000_000][choose(4)];
    let mut h = base(RinexType::ObservationData);
    h.constellation = Some(if flip() { Constellation::Mixed } else { gnss });
    if y < 2007 && c != 0 {
        reach("end");
        return;
    }
    let t = Epoch::from_gregorian(y, m, d, 12, 0, 0, 0, ts);
    let t2 = Epoch::from_gregorian(y, m, d, hh as u8, mm as u8, ss as u8, ns, ts);
    if let Some(o) = h.obs.as_mut() {
        o.timeof_first_obs = Some(t);
        o.timeof_last_obs = Some(t2);
    }
    if let Some(p) = rewrite(&h) {
        match p.obs {
            Some(o) => {
                match o.timeof_first_obs {
                    Some(v) => check((v.duration == t.duration) & (v.time_scale == t.time_scale), "first observation"),
                    None => check(false, "first observation is kept"),
                }
                match o.timeof_last_obs {
                    Some(v) => check((v.duration == t2.duration) & (v.time_scale == t2.time_scale), "last observation"),
                    None => check(false, "last observation is kept"),
                }
            }
            None => check(false, "observation header"),
        }
    }
    reach("end");
}
const O3: [&str; 30] = [
    "C1C", "L1C", "D1C", "S1C", "C1W", "L1W", "D1W", "S1W", "C2W", "L2W", "D2W", "S2W", "C2L", "L2L", "D2L", "S2L", "C5Q", "L5Q", "D5Q", "S5Q", "C1L", "L1L",
    "D1L", "S1L", "C5X", "L5X", "D5X", "S5X", "C2X", "L2X",
];
const O2: [&str; 20] = ["C1", "L1", "D1", "S1", "P1", "C2", "L2", "D2", "S2", "P2", "C5", "L5", "D5", "S5", "C7", "L7", "D7", "S7", "C8", "L8"];
#[no_mangle]
pub extern "C" fn c16_observables() {
    let n = 1 + choose(30);
    let kind = choose(4);
    let r = choose(3);
    let c = [Constellation::GPS, Constellation::Glonass, Constellation::Galileo, Constellation::Mixed][kind];
    let mut h = base(RinexType::ObservationData);
    h.constellation = Some(c);
    if n <= 20 && r == 2 {
        h.version = Version::new(2, 11);
        let mut want = vec![];
        for i in 0..n {
            want.push(ob(O2[i]));
        }
        if let Some(o) = h.obs.as_mut() {
            if kind == 3 {
                for k in [Constellation::GPS, Constellation::Glonass, Constellation::Galileo, Constellation::SBAS] {
                    o.codes.insert(k, want.clone());
                }
            } else {
                o.codes.insert(c, want.clone());
            }
        }
    } else {
        if let Some(o) = h.obs.as_mut() {
            for (j, k) in [Constellation::GPS, Constellation::Glonass, Constellation::Galileo, Constellation::SBAS].iter().enumerate() {
                if kind == 3 || *k == c {
                    let m = if j == r { n } else { 1 + (n * (j + 2)) % 14 };
                    o.codes.insert(*k, (0..m).map(|i| ob(O3[(i + j) % 30])).collect());
                }
            }
        }
    }
    if let Some(p) = rewrite(&h) {
        match (&p.obs, &h.obs) {
            (Some(a), Some(b)) => check(a.codes == b.codes, "observables"),
            _ => check(false, "observation header"),
        }
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c16_meteo() {
    let which = choose(6);
    let nobs = 1 + choose(11);
    let all = ["PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI", "PR"];
    let mut h = base(RinexType::MeteoData);
    let k = choose(10);
    let v = coord(k);
    let mut s = Sensor::new(ob(all[nobs % 10])).with_model("M").with_type("T").with_accuracy(0.1);
    match which {
        0 => s = s.with_model(&word(sizes(20))),
        1 => s = s.with_type(&word(sizes(20))),
        2 => s = s.with_position((v, fixed(0), fixed(1))).with_height(fixed(2)),
        3 => s = s.with_position((fixed(0), v, fixed(1))).with_height(fixed(2)),
        4 => s = s.with_position((fixed(0), fixed(1), v)).with_height(fixed(2)),
        _ => s = s.with_position((fixed(0), fixed(1), fixed(2))).with_height(v),
    }
    let other = Sensor::new(ob(all[(nobs + 3) % 10])).with_model("other model").with_type("other type").with_accuracy(7.5);
    if let Some(m) = h.meteo.as_mut() {
        m.codes = (0..nobs).map(|i| ob(all[i])).collect();
        m.sensors = vec![other.clone(), s.clone()];
    }
    if let Some(p) = rewrite(&h) {
        match &p.meteo {
            Some(m) => {
                check(m.codes.len() == nobs, "as many observables");
                for i in 0..m.codes.len().min(nobs) {
                    check(m.codes[i] == ob(all[i]), "observables");
                }
                check(m.sensors.len() == 2, "sensors");
                if m.sensors.len() == 2 {
                    check(m.sensors[0] == other, "other sensor");
                    let r = &m.sensors[1];
                    check(eq_o(&r.model, &s.model) & eq_o(&r.sensor_type, &s.sensor_type), "sensor");
                    check(r.accuracy == s.accuracy && r.observable == s.observable, "sensor accuracy");
                    match (r.position, s.position) {
                        (Some(a), Some(b)) => check((a.0 == b.0) & (a.1 == b.1) & (a.2 == b.2), "sensor position"),
                        (None, None) => {}
                        _ => check(false, "sensor position"),
                    }
                    match (r.height, s.height) {
                        (Some(a), Some(b)) => check(a == b, "sensor height"),
                        (None, None) => {}
                        _ => check(false, "sensor height"),
                    }
                }
            }
            None => check(false, "meteo header"),
        }
    }
    reach("end");
}
/// standard lines, any text in any one of their fields
#[no_mangle]
pub extern "C" fn c16_columns() {
    const LINES: [(&str, &[usize]); 4] = [("PGM / RUN BY / DATE", &[20, 20, 20]), ("OBSERVER / AGENCY", &[20, 40]), ("REC # / TYPE / VERS", &[20, 20, 20]), ("ANT # / TYPE", &[20, 20])];
    let which = choose(10);
    let full = flip();
    let left = flip();
    let mut out = vec![];
    hl(&mut out, ["     3.05           OBSERVATION DATA    ", "     2.11           OBSERVATION DATA    G (GPS)", "     3.05           METEOROLOGICAL DATA"][choose(3)], "RINEX VERSION / TYPE");
    let mut k = 0;
    let mut want: Vec<Vec<u8>> = vec![];
    for (label, widths) in LINES {
        let mut line: Vec<u8> = vec![];
        for w in widths {
            let t: Vec<u8> = if k == which {
                let n = sizes(*w);
                let mut t = word(n).into_bytes();
                if n > 5 {
                    t[2] = b' ';
                    t[n - 3] = printable();
                }
                t
            } else if full {
                (0..*w).map(|i| b'a' + ((i + k) % 26) as u8).collect()
            } else {
                vec![b'A' + k as u8]
            };
            let pad = w - t.len();
            for _ in 0..if left { 0 } else { pad } {
                line.push(b' ');
            }
            line.extend_from_slice(&t);
            for _ in 0..if left { pad } else { 0 } {
                line.push(b' ');
            }
            want.push(t);
            k += 1;
        }
        hl(&mut out, text(&line), label);
    }
    hl(&mut out, "     2.0000", "INTERVAL");
    hl(&mut out, "", "END OF HEADER");
    if let Some(h) = read(&out) {
        let r = h.rcvr.clone().unwrap_or_default();
        let a = h.rcvr_antenna.clone().unwrap_or_default();
        let s = |v: &Option<String>| v.clone().unwrap_or_default();
        let got = [s(&h.program), s(&h.run_by), s(&h.date), s(&h.observer), s(&h.agency), r.sn, r.model, r.firmware, a.sn, a.model];
        for i in 0..10 {
            check(same(got[i].as_bytes(), &want[i]), "field read from its columns");
        }
        check(h.sampling_interval == Some(Duration::from_milliseconds(2000.0)), "interval");
    }
    reach("end");
}
