//! C20: antenna calibrations: description, frequencies, validity, lookups
use crate::util::*;
use rinex::antex::record::AntennaPhasePattern;
use rinex::antex::{AntennaSpecific, CalibrationMethod};
use rinex::carrier::Carrier;
use rinex::prelude::antex::AntennaMatcher;

const METHODS: [(&str, CalibrationMethod); 6] = [
    ("CHAMBER", CalibrationMethod::Chamber),
    ("FIELD", CalibrationMethod::Field),
    ("ROBOT", CalibrationMethod::Robot),
    ("COPIED", CalibrationMethod::Copied),
    ("CONVERTED", CalibrationMethod::Converted),
    ("", CalibrationMethod::Unknown),
];
/// frequency codes, and the carrier they stand for
const FREQS: [(&str, Carrier); 24] = [
    ("G01", Carrier::L1),
    ("G02", Carrier::L2),
    ("G05", Carrier::L5),
    ("R01", Carrier::G1(None)),
    ("R02", Carrier::G2(None)),
    ("R03", Carrier::G3),
    ("R04", Carrier::G1a),
    ("R06", Carrier::G2a),
    ("E01", Carrier::E1),
    ("E05", Carrier::E5a),
    ("E06", Carrier::E6),
    ("E07", Carrier::E5b),
    ("E08", Carrier::E5),
    ("C01", Carrier::B1C),
    ("C02", Carrier::B1I),
    ("C05", Carrier::B2A),
    ("C06", Carrier::B3),
    ("C07", Carrier::B2B),
    ("C08", Carrier::B2),
    ("J06", Carrier::L6),
    ("I09", Carrier::S),
    ("J01", Carrier::L1),
    ("S05", Carrier::L5),
    ("J02", Carrier::L2),
];
fn file_header() -> Vec<u8> {
    let mut t = vec![];
    hl(&mut t, "     1.4            M", "ANTEX VERSION / SYST");
    hl(&mut t, "A", "PCV TYPE / REFANT");
    hl(&mut t, "", "END OF HEADER");
    t
}
fn line(t: &mut Vec<u8>, content: &[u8], label: &str) {
    t.extend_from_slice(content);
    for _ in content.len()..60 {
        t.push(b' ')
    }
    t.extend_from_slice(label.as_bytes());
    t.push(b'\n');
}
/// left aligned text
fn col(t: &mut Vec<u8>, text: &[u8], width: usize) {
    t.extend_from_slice(text);
    for _ in text.len()..width {
        t.push(b' ')
    }
}
#[derive(Clone)]
struct Freq {
    code: usize,
    neu: [f64; 3],
    pattern: Vec<f64>,
}
#[derive(Clone)]
struct Ant {
    igs: Vec<u8>,
    /// (satellite, SVN, COSPAR) or serial number
    sat: Option<(Vec<u8>, Vec<u8>, Vec<u8>)>,
    serial: Vec<u8>,
    method: usize,
    agency: Vec<u8>,
    number: Vec<u8>,
    dazi: (Vec<u8>, f64),
    zen: [(Vec<u8>, f64); 3],
    from: Option<(Vec<u8>, Epoch)>,
    until: Option<(Vec<u8>, Epoch)>,
    sinex: Vec<u8>,
    freqs: Vec<(Freq, Vec<u8>, Vec<u8>)>,
}
fn right(x: &str, width: usize) -> Vec<u8> {
    format!("{:>w$}", x, w = width).into_bytes()
}
fn freq(a: usize, code: usize, n: usize) -> (Freq, Vec<u8>, Vec<u8>) {
    let k = (1000 * (a as i64 + 1) + 37 * code as i64 + 11) as i64;
    let (mut neu, mut pat) = (vec![], b"   NOAZI".to_vec());
    for j in 0..3 {
        let v = if j == 1 { -k } else { k + 1000 * j };
        neu.extend_from_slice(&right(&format!("{}{}.{:02}", if v < 0 { "-" } else { "" }, v.abs() / 100, v.abs() % 100), 10));
    }
    let mut pattern = vec![];
    for j in 0..n {
        let v = k % 700 + j as i64;
        pat.extend_from_slice(&right(&format!("{}.{:02}", v / 100, v % 100), 8));
        pattern.push(dec(v, 2));
    }
    (Freq { code, neu: [dec(k, 2), dec(-k, 2), dec(k + 2000, 2)], pattern }, neu, pat)
}
fn ant(a: usize, sat: bool, codes: &[usize]) -> Ant {
    let n = [3usize, 19, 5, 6][a % 4];
    Ant {
        igs: [b"BLOCK IIA" as &[u8], b"JPSLEGANT_E", b"TRM57971.00", b"ROULAR25.R4"][a % 4].to_vec(),
        sat: if sat { Some((format!("G{:02}", a + 1).into_bytes(), format!("G{:03}", a + 32).into_bytes(), format!("199{}-0{}{}A", a, a + 1, a + 3).into_bytes())) } else { None },
        serial: if a % 2 == 1 { b"NONE".to_vec() } else { format!("LEIT72725{}", a).into_bytes() },
        method: a % 6,
        agency: format!("Agency, no. {}", a).into_bytes(),
        number: format!("{}", a + 1).into_bytes(),
        dazi: (b"5.0".to_vec(), 5.0),
        zen: [(b"0.0".to_vec(), 0.0), (b"90.0".to_vec(), 90.0), (b"5.0".to_vec(), 5.0)],
        from: None,
        until: None,
        sinex: format!("IGS14_22{}", 40 + a).into_bytes(),
        freqs: codes.iter().map(|c| freq(a, *c, n)).collect(),
    }
}
/// options of the layout
#[derive(Clone, Copy)]
struct Layout {
    azimuth: bool,
    rms: bool,
    comments: bool,
    trim: bool,
}
fn write(t: &mut Vec<u8>, a: &Ant, o: Layout) {
    let mut c = vec![];
    line(t, b"", "START OF ANTENNA");
    col(&mut c, &a.igs, 16);
    match &a.sat {
        Some((sv, svn, cospar)) => {
            col(&mut c, b"", 4);
            col(&mut c, sv, 20);
            col(&mut c, svn, 10);
            col(&mut c, cospar, 10);
        }
        None => col(&mut c, &a.serial, 20),
    }
    line(t, &c, "TYPE / SERIAL NO");
    c.clear();
    col(&mut c, METHODS[a.method].0.as_bytes(), 20);
    col(&mut c, &a.agency, 20);
    for _ in a.number.len()..6 {
        c.push(b' ')
    }
    c.extend_from_slice(&a.number);
    c.extend_from_slice(b"    20-SEP-17");
    line(t, &c, "METH / BY / # / DATE");
    c.clear();
    c.extend_from_slice(b"  ");
    for _ in a.dazi.0.len()..6 {
        c.push(b' ')
    }
    c.extend_from_slice(&a.dazi.0);
    line(t, &c, "DAZI");
    c.clear();
    c.extend_from_slice(b"  ");
    for z in &a.zen {
        for _ in z.0.len()..6 {
            c.push(b' ')
        }
        c.extend_from_slice(&z.0);
    }
    line(t, &c, "ZEN1 / ZEN2 / DZEN");
    line(t, format!("{:6}", a.freqs.len()).as_bytes(), "# OF FREQUENCIES");
    if let Some((x, _)) = &a.from {
        line(t, x, "VALID FROM");
    }
    if let Some((x, _)) = &a.until {
        line(t, x, "VALID UNTIL");
    }
    line(t, &a.sinex, "SINEX CODE");
    if o.comments {
        line(t, b"# VALID UNTIL further notice, START OF FREQUENCY", "COMMENT");
    }
    for (f, neu, pattern) in &a.freqs {
        let code = format!("   {}", FREQS[f.code].0);
        line(t, code.as_bytes(), "START OF FREQUENCY");
        line(t, neu, "NORTH / EAST / UP");
        if !f.pattern.is_empty() {
            t.extend_from_slice(pattern);
            t.push(b'\n');
        }
        if o.azimuth {
            for z in ["     0.0", "     5.0"] {
                t.extend_from_slice(z.as_bytes());
                for j in 0..f.pattern.len() {
                    t.extend_from_slice(format!("{:>8}", format!("-9.{:02}", j)).as_bytes());
                }
                t.push(b'\n');
            }
        }
        line(t, code.as_bytes(), "END OF FREQUENCY");
    }
    if o.rms {
        for (f, _, _) in &a.freqs {
            let code = format!("   {}", FREQS[f.code].0);
            line(t, code.as_bytes(), "START OF FREQ RMS");
            line(t, b"      7.77      7.77      7.77", "NORTH / EAST / UP");
            t.extend_from_slice(b"   NOAZI    7.77    7.77\n");
            line(t, code.as_bytes(), "END OF FREQ RMS");
        }
    }
    line(t, b"", "END OF ANTENNA");
}
/// drop the blanks that end lines
fn trimmed(t: &[u8]) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    for b in t {
        if *b == b'\n' {
            while out.last() == Some(&b' ') {
                out.pop();
            }
        }
        out.push(*b);
    }
    out
}
fn has_text(s: &str, text: &[u8]) -> bool {
    let (b, mut ok) = (s.as_bytes(), s.len() == text.len());
    if ok {
        for i in 0..text.len() {
            ok &= b[i] == text[i];
        }
    }
    ok
}
fn compare(got: &(rinex::antex::Antenna, std::collections::HashMap<Carrier, rinex::antex::FrequencyDependentData>), a: &Ant) {
    let (g, data) = got;
    match (&g.specific, &a.sat) {
        (AntennaSpecific::SvAntenna(s), Some((sv, _, cospar))) => {
            check(has_text(&s.igs_type, &a.igs), "type");
            let p = |x: u8| (x - b'0') as u64;
            let prn = p(sv[1]) * 10 + p(sv[2]);
            check((s.sv.constellation == sv_system(sv[0])) & (s.sv.prn as u64 == prn), "satellite");
            // COSPAR has no accessors: compare its spelling
            check(has_text(&s.cospar.to_string(), cospar), "launch");
        }
        (AntennaSpecific::RxAntenna(r), None) => {
            check(has_text(&r.igs_type, &a.igs), "type");
            match &r.serial_number {
                Some(s) => check(has_text(s, &a.serial), "serial number"),
                None => check(a.serial.is_empty() || a.serial == b"NONE", "no serial number"),
            }
        }
        _ => check(false, "receiver or satellite"),
    }
    check(g.calibration.method == METHODS[a.method].1, "method");
    check(has_text(&g.calibration.agency, &a.agency), "agency");
    let mut n = 0u64;
    for d in &a.number {
        n = n * 10 + (*d - b'0') as u64;
    }
    check(g.calibration.number as u64 == n, "number of antennas");
    check(g.azi_inc == a.dazi.1, "azimuth increment");
    check((g.zenith_grid.start == a.zen[0].1) & (g.zenith_grid.end == a.zen[1].1) & (g.zenith_grid.spacing == a.zen[2].1), "zenith grid");
    check(has_text(&g.sinex_code, &a.sinex), "SINEX code");
    check(data.len() == a.freqs.len(), "frequencies");
    for (f, _, _) in &a.freqs {
        match data.get(&FREQS[f.code].1) {
            Some(d) => {
                check((d.apc_eccentricity.0 == f.neu[0]) & (d.apc_eccentricity.1 == f.neu[1]) & (d.apc_eccentricity.2 == f.neu[2]), "eccentricities");
                let AntennaPhasePattern::AzimuthIndependentPattern(p) = &d.phase_pattern;
                check(p.len() == f.pattern.len(), "values in the pattern");
                for (x, y) in p.iter().zip(&f.pattern) {
                    check(*x == *y, "value of the pattern");
                }
            }
            None => check(false, "frequency found"),
        }
    }
}
fn sv_system(c: u8) -> Constellation {
    match c {
        b'G' => Constellation::GPS,
        b'R' => Constellation::Glonass,
        b'E' => Constellation::Galileo,
        b'C' => Constellation::BeiDou,
        b'J' => Constellation::QZSS,
        _ => Constellation::IRNSS,
    }
}
fn layout(i: usize) -> Layout {
    Layout { azimuth: i & 1 != 0, rms: i & 2 != 0, comments: i & 4 != 0, trim: i & 8 != 0 }
}
/// three antennas; one field of one of them free
fn one_free(ants: &mut [Ant], o: Layout) {
    let mut t = file_header();
    for a in ants.iter() {
        write(&mut t, a, o);
    }
    if o.trim {
        t = trimmed(&t);
    }
    match parse(&t) {
        Ok(r) => {
            let got: Vec<_> = r.antennas().collect();
            check(got.len() == ants.len(), "one entry per antenna");
            for (g, a) in got.iter().zip(ants.iter()) {
                compare(g, a);
            }
        }
        Err(_) => check(false, "parses"),
    }
    reach("compared");
}
fn three() -> Vec<Ant> {
    vec![ant(0, true, &[0, 1]), ant(1, false, &[0, 3, 8]), ant(2, false, &[10, 2])]
}
/// eccentricities and phase patterns of one frequency
#[no_mangle]
pub extern "C" fn c20_values() {
    let mut a = three();
    let which = choose(7);
    let (i, j) = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1)][which];
    let f = &mut a[i].freqs[j];
    match choose(5) {
        n @ 0..=2 => {
            // shape of the number
            let mut c = f.1[..10 * n].to_vec();
            f.0.neu[n] = match choose(3) {
                0 => decimal_field(&mut c, 10, 5, 2, false),
                1 => decimal_field(&mut c, 10, 2, 2, true),
                _ => decimal_field(&mut c, 10, 1, 2, false),
            };
            c.extend_from_slice(&f.1[10 * n + 10..]);
            f.1 = c;
        }
        3 => {
            let n = f.0.pattern.len();
            let at = [0, n / 2, n - 1][choose(3)];
            let mut c = f.2[..8 + 8 * at].to_vec();
            f.0.pattern[at] = match choose(3) {
                0 => decimal_field(&mut c, 8, 2, 2, true),
                1 => decimal_field(&mut c, 8, 4, 2, true),
                _ => decimal_field(&mut c, 8, 1, 2, false),
            };
            c.extend_from_slice(&f.2[16 + 8 * at..]);
            f.2 = c;
        }
        _ => {
            // no pattern at all
            f.0.pattern = vec![];
        }
    }
    let o = if thorough() { choose(16) } else { [0, 3, 7, 15][choose(4)] };
    one_free(&mut a, layout(o));
}
/// every frequency code, in any of four positions
#[no_mangle]
pub extern "C" fn c20_codes() {
    let c = choose(FREQS.len());
    let at = choose(3);
    let mut codes = vec![];
    for x in [9usize, 18, 20] {
        if codes.len() == at {
            codes.push(c);
        }
        if FREQS[x].1 != FREQS[c].1 {
            codes.push(x);
        }
    }
    if codes.len() == at {
        codes.push(c);
    }
    let mut a = vec![ant(0, true, &[0, 1]), ant(1, false, &codes), ant(3, true, &[0])];
    let mut cc = vec![];
    let f = a[1].freqs.iter_mut().find(|f| f.0.code == c).unwrap();
    f.0.neu[0] = decimal_field(&mut cc, 10, 3, 2, false);
    cc.extend_from_slice(&f.1[10..]);
    f.1 = cc;
    one_free(&mut a, layout(0));
}
/// a frequency the library does not know is not mistaken for another
#[no_mangle]
pub extern "C" fn c20_unknown() {
    let sys = [b'G', b'R', b'E', b'C', b'J', b'I'][choose(6)];
    let known: &[u8] = match sys {
        b'G' => b"125",
        b'R' => b"12346",
        b'E' => b"15678",
        b'C' => b"125678",
        b'J' => b"1256",
        _ => b"159",
    };
    let d = digit();
    for k in known {
        assume(d != *k);
    }
    let a = ant(1, false, &[2, 11]);
    let mut t = vec![];
    write(&mut t, &a, layout(0));
    // rename the second frequency
    let mut u = file_header();
    let mut n = 0;
    for l in t.split(|b| *b == b'\n') {
        if l.is_empty() {
            continue;
        }
        if l.starts_with(b"   E07") {
            u.extend_from_slice(&[b' ', b' ', b' ', sys, b'0', d]);
            u.extend_from_slice(&l[6..]);
            n += 1;
        } else {
            u.extend_from_slice(l);
        }
        u.push(b'\n');
    }
    check(n == 2, "renamed");
    match parse(&u) {
        Ok(r) => {
            for (g, data) in r.antennas() {
                check(g.calibration.number == 2, "antenna");
                check(data.len() == 1, "one frequency");
                match data.get(&Carrier::L5) {
                    Some(d) => check(d.apc_eccentricity.0 == a.freqs[0].0.neu[0], "its own eccentricities"),
                    None => check(false, "L5"),
                }
            }
        }
        Err(_) => check(false, "parses"),
    }
    reach("compared");
}
/// free text, both ends not blank
fn text(n: usize) -> Vec<u8> {
    let mut t = vec![];
    for i in 0..n {
        t.push(if i == 0 || i == n - 1 { byte_in(b'!', b'~') } else { printable() });
    }
    t
}
/// descriptions
#[no_mangle]
pub extern "C" fn c20_description() {
    let mut a = three();
    let i = choose(3);
    let x = &mut a[i];
    match choose(10) {
        0 => x.igs = text([1, 3, 9, 16][choose(4)]),
        1 => match &mut x.sat {
            Some((sv, _, cospar)) => {
                *sv = vec![[b'G', b'R', b'E', b'C', b'J', b'I'][choose(6)], digit(), digit()];
                for k in [0, 1, 2, 3, 5, 6, 7] {
                    cospar[k] = digit();
                }
                // printed without its leading zeros, if any
                assume(cospar[0] != b'0');
                cospar[8] = byte_in(b'A', b'Z');
            }
            None => {
                x.serial = text([1, 2, 5, 20][choose(4)]);
                assume(!(x.serial == b"NONE"));
            }
        },
        2 => x.agency = text([1, 3, 20][choose(3)]),
        3 => {
            let n = choose(4) + 1;
            x.number = (0..n).map(|_| digit()).collect();
        }
        4 => x.sinex = text([1, 2, 10][choose(3)]),
        5 => x.method = choose(6),
        6 => {
            let mut c = vec![];
            let v = match choose(2) {
                0 => decimal_field(&mut c, 0, 1, 1, false),
                _ => decimal_field(&mut c, 0, 3, 1, false),
            };
            x.dazi = (c, v);
        }
        n => {
            let mut c = vec![];
            let v = match choose(2) {
                0 => decimal_field(&mut c, 0, 1, 1, false),
                _ => decimal_field(&mut c, 0, 3, 1, false),
            };
            x.zen[n - 7] = (c, v);
        }
    }
    one_free(&mut a, layout([0, 15][choose(2)]));
}
const DATES: [(i32, u8, u8); 8] = [(1992, 11, 22), (1999, 12, 31), (2000, 2, 29), (2008, 10, 16), (2016, 12, 31), (2017, 1, 1), (2024, 2, 29), (2025, 6, 30)];
/// a date with free minutes, seconds and fraction, and the instant it spells
fn instant(d: usize) -> (Vec<u8>, Epoch) {
    let (y, m, day) = DATES[d];
    let hh = if d % 2 == 0 { 0 } else { 23 };
    let mut t = format!("{:6}{:6}{:6}{:6}    ", y, m, day, hh).into_bytes();
    let (m1, m0, s1, s0) = (byte_in(b'0', b'5'), digit(), byte_in(b'0', b'5'), digit());
    t.extend_from_slice(&[m1, m0, b' ', b' ', b' ', s1, s0, b'.']);
    let mut ns = 0i64;
    for _ in 0..7 {
        let x = digit();
        t.push(x);
        ns = ns * 10 + (x - b'0') as i64;
    }
    let v = |x: u8| (x - b'0') as i64;
    let s = (v(m1) * 10 + v(m0)) * 60 + v(s1) * 10 + v(s0);
    let e = Epoch::from_gregorian_utc(y, m, day, hh, 0, 0, 0) + Duration::from_parts(0, (s * 1_000_000_000 + ns * 100) as u64);
    (t, e)
}
/// validity bounds, as parsed
#[no_mangle]
pub extern "C" fn c20_bounds() {
    let (d, k) = (choose(8), choose(4));
    let mut a = ant(0, true, &[0]);
    let (mut other, mut t) = (ant(1, true, &[0]), file_header());
    other.until = Some((b"  2001     3     2    23    59   59.0000000".to_vec(), Epoch::from_gregorian_utc(2001, 3, 2, 23, 59, 59, 0)));
    if k & 1 != 0 {
        a.from = Some(instant(d));
    }
    if k & 2 != 0 {
        a.until = Some(if k == 3 { (b"  2025    12    31    23    59   59.9999999".to_vec(), Epoch::from_gregorian_utc(2025, 12, 31, 23, 59, 59, 999_999_900)) } else { instant(d) });
    }
    let ants = [other, a];
    for x in &ants {
        write(&mut t, x, layout(0));
    }
    match parse(&t) {
        Ok(r) => {
            let got: Vec<_> = r.antennas().collect();
            check(got.len() == 2, "both antennas");
            for (g, x) in got.iter().zip(&ants) {
                // around a bound, far before and far after
                for (b, inside_before) in [(&x.from, false), (&x.until, true)] {
                    if let Some((_, b)) = b {
                        check(g.0.is_valid(*b), "a bound is within");
                        let (before, after) = (*b - Duration::from_parts(0, 1), *b + Duration::from_parts(0, 1));
                        check(g.0.is_valid(before) == inside_before, "just before");
                        check(g.0.is_valid(after) != inside_before, "just after");
                    }
                }
                let (old, new) = (Epoch::from_gregorian_utc(1980, 1, 6, 0, 0, 0, 0), Epoch::from_gregorian_utc(2040, 1, 6, 0, 0, 0, 0));
                check(g.0.is_valid(old) == x.from.is_none(), "long before");
                check(g.0.is_valid(new) == x.until.is_none(), "long after");
            }
        }
        Err(_) => check(false, "parses"),
    }
    reach("compared");
}
/// lookups by name and time
#[no_mangle]
pub extern "C" fn c20_lookup() {
    let at = |y: i32, s: &str| Some((format!("{:6}     1     1     0     0{}", y, s).into_bytes(), Epoch::from_gregorian_utc(y, 1, 1, 0, 0, 0, 0)));
    let end = |y: i32| Some((format!("{:6}    12    31    23    59   59.9999999", y).into_bytes(), Epoch::from_gregorian_utc(y, 12, 31, 23, 59, 59, 999_999_900)));
    let z = "    0.0000000";
    // same satellite twice, same receiver antenna twice, and others
    let mut ants = vec![ant(0, true, &[0, 1]), ant(1, false, &[0, 8]), ant(2, true, &[0]), ant(3, true, &[0, 2]), ant(4, false, &[1, 0])];
    ants[0].from = at(2000, z);
    ants[0].until = end(2003);
    ants[2].sat = ants[0].sat.clone();
    ants[2].from = at(2004, z);
    ants[1].until = end(2010);
    ants[4].igs = ants[1].igs.clone();
    ants[4].from = at(2011, z);
    ants[4].serial = b"LEIT727254".to_vec();
    // in any order
    let k = choose(5);
    ants.rotate_left(k);
    if flip() {
        ants.reverse();
    }
    let mut t = file_header();
    for a in &ants {
        write(&mut t, a, layout(0));
    }
    // any nanosecond within an hour around an instant of interest
    let y = [2000i32, 2004, 2008, 2011, 2015][choose(5)];
    let ns = int(0, 7_200_000_000_000);
    let now = Epoch::from_gregorian_utc(y - 1, 12, 31, 23, 0, 0, 0) + Duration::from_parts(0, ns as u64);
    let carrier = [Carrier::L1, Carrier::L2, Carrier::L5, Carrier::E1][choose(4)];
    match parse(&t) {
        Ok(r) => {
            let (got, want) = match choose(5) {
                0 => (r.sv_antenna_apc_offset(now, sv("G01"), carrier), valid(&ants, now, |a| matches!(&a.sat, Some((s, _, _)) if s == b"G01"), carrier)),
                1 => (r.sv_antenna_apc_offset(now, sv("G04"), carrier), valid(&ants, now, |a| matches!(&a.sat, Some((s, _, _)) if s == b"G04"), carrier)),
                n @ 2..=3 => {
                    // case of the name does not matter
                    let mut name = b"jPSlEGANT_e".to_vec();
                    if n == 3 {
                        let i = choose(9) + 1;
                        name[i] ^= 0x20;
                        if name[i] == 0x7f {
                            name[i] = b'_';
                        }
                    }
                    let m = AntennaMatcher::IGSCode(String::from_utf8(name).unwrap());
                    (r.rx_antenna_apc_offset(now, m, carrier), valid(&ants, now, |a| a.sat.is_none() && a.igs == b"JPSLEGANT_E", carrier))
                }
                _ => {
                    let m = AntennaMatcher::SerialNumber("leit727254".to_string());
                    (r.rx_antenna_apc_offset(now, m, carrier), valid(&ants, now, |a| a.sat.is_none() && a.serial == b"LEIT727254", carrier))
                }
            };
            match (got, want) {
                (Some(g), Some(w)) => check((g.0 == w[0]) & (g.1 == w[1]) & (g.2 == w[2]), "offset of the calibration in force"),
                (None, None) => {}
                (Some(_), None) => check(false, "no calibration in force"),
                (None, Some(_)) => check(false, "calibration found"),
            }
        }
        Err(_) => check(false, "parses"),
    }
    reach("compared");
}
fn valid<F: Fn(&Ant) -> bool>(ants: &[Ant], now: Epoch, f: F, c: Carrier) -> Option<[f64; 3]> {
    let mut out = None;
    for a in ants {
        if f(a) && within(a, now) {
            if let Some(x) = a.freqs.iter().find(|x| FREQS[x.0.code].1 == c) {
                check(out.is_none(), "one at most");
                out = Some(x.0.neu);
            }
        }
    }
    out
}
fn within(a: &Ant, now: Epoch) -> bool {
    !(a.from.as_ref().map_or(false, |(_, e)| now < *e) | a.until.as_ref().map_or(false, |(_, e)| now > *e))
}
/// known finding: frequencies of two systems that share a carrier share one slot
#[no_mangle]
pub extern "C" fn c20_kf_shared() {
    let mut a = vec![ant(1, false, &[0, 21])];
    one_free(&mut a, layout(0));
}
/// known finding: calibration dates are read year first
#[no_mangle]
pub extern "C" fn c20_kf_date() {
    let mut t = file_header();
    write(&mut t, &ant(1, false, &[0]), layout(0));
    match parse(&t) {
        Ok(r) => {
            for (a, _) in r.antennas() {
                check(a.calibration.date == Epoch::from_gregorian_utc_at_midnight(2017, 9, 20), "date of the calibration");
            }
        }
        Err(_) => check(false, "parses"),
    }
    reach("compared");
}
