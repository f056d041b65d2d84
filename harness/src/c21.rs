//! C21: clock records are read field by field
use crate::util::*;
use rinex::prelude::clock::*;

/// one term of 19 columns: sign, 0., 12 digits, exponent
#[derive(Clone, Copy)]
struct Term {
    neg: bool,
    d: [u8; 12],
    e: i32,
    letter: u8,
}
impl Term {
    fn known(i: usize) -> Term {
        let mut d = *b"123456789012";
        d[3] = b'0' + (i % 10) as u8;
        d[7] = b'0' + (i / 10 % 10) as u8;
        Term { neg: i % 3 == 1, d, e: [0, 1, -9, 4, -3][i % 5], letter: b'E' }
    }
    fn free() -> Term {
        let mut d = [0; 12];
        for b in d.iter_mut() {
            *b = digit();
        }
        let (neg, e, letter) = [(false, 0, b'E'), (true, -10, b'E'), (false, 3, b'D'), (true, 5, b'D'), (true, -3, b'd'), (false, -1, b'e')][choose(6)];
        Term { neg, d, e, letter }
    }
    fn put(&self, out: &mut Vec<u8>) {
        out.push(if self.neg { b'-' } else { b' ' });
        out.extend_from_slice(b"0.");
        out.extend_from_slice(&self.d);
        out.push(self.letter);
        out.push(if self.e < 0 { b'-' } else { b'+' });
        let e = self.e.unsigned_abs() as u8;
        out.push(b'0' + e / 10);
        out.push(b'0' + e % 10);
    }
    fn value(&self) -> f64 {
        let k = num(&self.d);
        dec(if self.neg { -k } else { k }, (12 - self.e) as u32)
    }
}
fn known(n: usize, from: usize) -> Vec<Term> {
    (0..n).map(|i| Term::known(from + i)).collect()
}
#[derive(Clone, Copy, PartialEq)]
enum Layout {
    V2,
    V3,
    V304,
    V304Narrow, // labels in column 61 nevertheless
}
const LAYOUTS: [Layout; 4] = [Layout::V2, Layout::V3, Layout::V304, Layout::V304Narrow];
impl Layout {
    fn name_width(self) -> usize {
        match self {
            Layout::V2 | Layout::V3 => 5,
            _ => 10,
        }
    }
}
fn label(out: &mut Vec<u8>, l: Layout, content: &[u8], label: &str) {
    out.extend_from_slice(content);
    let w = if l == Layout::V304 { 65 } else { 60 };
    for _ in content.len()..w {
        out.push(b' ');
    }
    out.extend_from_slice(label.as_bytes());
    out.push(b'\n');
}
fn start(l: Layout, constell: &str) -> Vec<u8> {
    let mut h = vec![];
    let first = match l {
        Layout::V2 => format!("     2.00           CLOCK DATA          {:20}", constell),
        Layout::V3 => format!("     3.00           CLOCK DATA          {:20}", constell),
        Layout::V304 => format!("3.04                 C                    {:20}", constell),
        Layout::V304Narrow => format!("     3.04           CLOCK DATA          {:20}", constell),
    };
    label(&mut h, l, first.as_bytes(), "RINEX VERSION / TYPE");
    h
}
fn header(l: Layout, system: Option<&str>, constell: &str) -> Vec<u8> {
    let mut h = start(l, constell);
    if let Some(s) = system {
        label(&mut h, l, format!("   {}", s).as_bytes(), "TIME SYSTEM ID");
    }
    label(&mut h, l, b"", "END OF HEADER");
    h
}
fn entry(out: &mut Vec<u8>, l: Layout, code: &str, name: &[u8], epoch: &[u8], terms: &[Term]) {
    out.extend_from_slice(code.as_bytes());
    out.push(b' ');
    out.extend_from_slice(name);
    for _ in name.len()..l.name_width() {
        out.push(b' ');
    }
    out.extend_from_slice(epoch);
    out.extend_from_slice(b"  ");
    out.push(b'0' + terms.len() as u8);
    out.extend_from_slice(b"   ");
    for (i, t) in terms.iter().enumerate() {
        if i == 2 {
            out.extend_from_slice(b"\n ");
        }
        if i > 0 {
            out.extend_from_slice(if i == 2 { b"  " } else { b"  " });
        }
        t.put(out);
    }
    out.push(b'\n');
}
fn code(t: &ClockProfileType) -> &'static str {
    match t {
        ClockProfileType::AR => "AR",
        ClockProfileType::AS => "AS",
        ClockProfileType::CR => "CR",
        ClockProfileType::DR => "DR",
        ClockProfileType::MS => "MS",
    }
}
fn opt(v: Option<f64>, t: Option<&Term>, what: &str) {
    match (v, t) {
        (Some(v), Some(t)) => {
            observe_f(v);
            check(v == t.value(), what)
        }
        (None, None) => (),
        _ => check(false, "terms of the line, and only them"),
    }
}
fn judge(p: &ClockProfile, t: &[Term]) {
    opt(Some(p.bias), t.first(), "bias");
    opt(p.bias_dev, t.get(1), "bias deviation");
    opt(p.drift, t.get(2), "drift");
    opt(p.drift_dev, t.get(3), "drift deviation");
    opt(p.drift_change, t.get(4), "drift change");
    opt(p.drift_change_dev, t.get(5), "drift change deviation");
}
const EPOCH: &[u8] = b"1994 07 14 20 59  0.000000";
fn epoch() -> Epoch {
    Epoch::from_gregorian(1994, 7, 14, 20, 59, 0, 0, TimeScale::GPST)
}
fn single(text: &[u8], t: &ClockProfileType, terms: &[Term]) -> Option<(Epoch, ClockType)> {
    let r = match parse(text) {
        Ok(r) => r,
        Err(_) => {
            check(false, "file parses");
            return None;
        }
    };
    let mut n = 0;
    let mut found = None;
    for (e, inner) in r.precise_clock() {
        for (k, p) in inner.iter() {
            n += 1;
            check(k.profile_type == *t, "profile type");
            judge(p, terms);
            found = Some((*e, k.clock_type.clone()));
        }
    }
    check(n == 1, "one entry");
    found
}
const TYPES: [ClockProfileType; 5] = [ClockProfileType::AS, ClockProfileType::AR, ClockProfileType::CR, ClockProfileType::DR, ClockProfileType::MS];

/// any one term, on a line of 1 to 6 terms
#[no_mangle]
pub extern "C" fn c21_values() {
    let pick = choose(21);
    let (n, focus) = {
        let (mut n, mut k) = (1, pick);
        while k >= n {
            k -= n;
            n += 1;
        }
        (n, k)
    };
    let l = LAYOUTS[if thorough() { choose(4) } else { pick % 4 }];
    let ty = &TYPES[if thorough() { choose(5) } else { pick % 5 }];
    let mut terms = known(n, 3 * pick);
    terms[focus] = Term::free();
    let mut t = header(l, Some("GPS"), "");
    let name: &[u8] = if matches!(ty, ClockProfileType::AS | ClockProfileType::MS) { b"G16" } else { b"AREQ" };
    entry(&mut t, l, code(ty), name, EPOCH, &terms);
    if let Some((e, c)) = single(&t, ty, &terms) {
        check(e == epoch(), "epoch");
        match c {
            ClockType::SV(s) => check(s == sv("G16"), "satellite"),
            ClockType::Station(s) => check(s == "AREQ", "station"),
        }
    }
    reach("end");
}

/// any name
#[no_mangle]
pub extern "C" fn c21_key() {
    let which = choose(14);
    let l = LAYOUTS[choose(4)];
    let terms = known(2, 5);
    let mut t = header(l, Some("GPS"), "");
    if which < 8 {
        let letter = b"GRECJSI"[which % 7];
        let ty = if which % 2 == 0 { ClockProfileType::AS } else { ClockProfileType::MS };
        let name = [letter, digit(), digit()];
        let n = num(&name[1..]);
        match letter {
            b'S' => assume((n >= 20) & (n <= 58)),
            b'C' => assume((n >= 1) & (n <= 63)),
            b'J' => assume((n >= 1) & (n <= 10)),
            _ => assume((n >= 1) & (n <= 36)),
        }
        entry(&mut t, l, code(&ty), &name, EPOCH, &terms);
        if let Some((_, c)) = single(&t, &ty, &terms) {
            match c {
                ClockType::SV(s) => {
                    let want = match letter {
                        b'G' => Constellation::GPS,
                        b'R' => Constellation::Glonass,
                        b'E' => Constellation::Galileo,
                        b'C' => Constellation::BeiDou,
                        b'J' => Constellation::QZSS,
                        b'I' => Constellation::IRNSS,
                        _ => s.constellation,
                    };
                    check(if letter == b'S' { s.constellation.is_sbas() } else { s.constellation == want }, "constellation");
                    observe(s.prn as u64);
                    check(s.prn as i64 == n, "satellite number");
                }
                _ => check(false, "a satellite clock"),
            }
        }
    } else {
        let ty = [ClockProfileType::AR, ClockProfileType::CR, ClockProfileType::DR][which % 3].clone();
        let n = if l.name_width() == 5 { 4 } else { [4, 9][which % 2] };
        let mut name: Vec<u8> = (0..n).map(|_| byte_in(b'0', b'Z')).collect();
        if which > 10 {
            // looks like a satellite
            name = vec![byte_of(b"GREC"), digit(), digit(), b' '];
            name.truncate(3);
        }
        entry(&mut t, l, code(&ty), &name, EPOCH, &terms);
        if let Some((e, c)) = single(&t, &ty, &terms) {
            check(e == epoch(), "epoch");
            match c {
                ClockType::Station(s) => {
                    observe_s(&s);
                    check(same(s.as_bytes(), &name), "station name")
                }
                _ => check(false, "a receiver clock"),
            }
        }
    }
    reach("end");
}

/// any instant, in every time system
#[no_mangle]
pub extern "C" fn c21_epoch() {
    let which = choose(12);
    let l = LAYOUTS[choose(4)];
    let (system, constell, ts) = [
        (Some("GPS"), "", TimeScale::GPST),
        (Some("GAL"), "G", TimeScale::GST),
        (Some("GLO"), "", TimeScale::UTC),
        (Some("QZS"), "M", TimeScale::QZSST),
        (Some("BDT"), "", TimeScale::BDT),
        (Some("UTC"), "E", TimeScale::UTC),
        (Some("TAI"), "", TimeScale::TAI),
        (None, "", TimeScale::GPST),
        (None, "M", TimeScale::GPST),
        (None, "G", TimeScale::GPST),
        (None, "E", TimeScale::GST),
        (None, "C", TimeScale::BDT),
    ][which];
    let mut t = header(l, system, constell);
    let (hh, mm, ss, us) = ([byte_of(b"01"), digit()], [byte_in(b'0', b'5'), digit()], [byte_in(b'0', b'5'), digit()], digits(6));
    let (day, y, m, d) = [(b"1994 07 14", 1994, 7, 14), (b"2020 02 29", 2020, 2, 29), (b"2019 12 31", 2019, 12, 31), (b"2008 01 01", 2008, 1, 1)][which % 4];
    let mut e = day.to_vec();
    e.push(b' ');
    e.extend_from_slice(&hh);
    e.push(b' ');
    e.extend_from_slice(&mm);
    e.push(b' ');
    let blank = flip();
    if blank {
        assume(ss[0] == b'0');
    }
    e.push(if blank { b' ' } else { ss[0] });
    e.push(ss[1]);
    e.push(b'.');
    e.extend_from_slice(&us);
    let terms = known(2, 9);
    entry(&mut t, l, "AS", b"G16", &e, &terms);
    if let Some((got, c)) = single(&t, &ClockProfileType::AS, &terms) {
        let want = Epoch::from_gregorian(y, m, d, num(&hh) as u8, num(&mm) as u8, num(&ss) as u8, num(&us) as u32 * 1000, ts);
        check(got.time_scale == ts, "time scale");
        check(got.duration == want.duration, "instant");
        check(c == ClockType::SV(sv("G16")), "satellite");
    }
    reach("end");
}

/// several clocks and epochs, continuation lines or not
#[no_mangle]
pub extern "C" fn c21_records() {
    const CLOCKS: [(&str, &str); 5] = [("AS", "G16"), ("AS", "R20"), ("AR", "AREQ"), ("MS", "G16"), ("DR", "G16")];
    let pick = choose(5);
    let order = choose(4);
    let l = LAYOUTS[if thorough() { choose(4) } else { (pick + order) % 4 }];
    let mut t = header(l, Some("GPS"), "M");
    let mut want: Vec<(usize, u8, Vec<Term>)> = vec![];
    let counts = [[1, 2, 6, 4, 3], [2, 1, 1, 2, 5], [6, 6, 6, 6, 6], [3, 1, 4, 1, 5]][if thorough() { choose(4) } else { (order + 2 * pick) % 4 }];
    for e in 0..2u8 {
        for i in 0..5 {
            let c = match order {
                0 => i,
                1 => 4 - i,
                2 => (i + 2 + e as usize) % 5,
                _ => (3 * i) % 5,
            };
            // one clock is not given at one of the epochs
            if order == 3 && c == (pick + 1) % 5 && e == 0 {
                continue;
            }
            let n = counts[(i + e as usize) % 5];
            let mut terms = known(n, 7 * i + 3 * e as usize);
            if c == pick && e == (order % 2) as u8 {
                terms[n - 1] = Term::free();
            }
            let at: &[u8] = if e == 0 { b"1994 07 14 20 59  0.000000" } else { b"1994 07 14 20 59 30.000000" };
            entry(&mut t, l, CLOCKS[c].0, CLOCKS[c].1.as_bytes(), at, &terms);
            want.push((c, e, terms));
        }
    }
    match parse(&t) {
        Ok(r) => {
            let mut n = 0;
            for (e, inner) in r.precise_clock() {
                let e = if *e == epoch() { 0 } else { 1 };
                for (k, p) in inner.iter() {
                    n += 1;
                    for (c, e2, terms) in want.iter() {
                        let (ty, name) = CLOCKS[*c];
                        if *e2 == e && k.profile_type.to_string() == ty && k.clock_type.to_string() == name {
                            check(k.clock_type.as_sv().is_some() == (ty != "AR" && ty != "DR"), "kind of clock");
                            judge(p, terms);
                            n += 100;
                        }
                    }
                }
            }
            check(n == 101 * want.len(), "every entry, once");
            check(r.epoch_iter().count() == 2, "two epochs");
            check(r.epoch_iter().last() == Some(Epoch::from_gregorian(1994, 7, 14, 20, 59, 30, 0, TimeScale::GPST)), "second epoch");
            let svs = r.precise_sv_clock().count();
            let stations = r.precise_station_clock().count();
            check(svs == want.iter().filter(|x| ![2, 4].contains(&x.0)).count(), "satellite clocks");
            check(svs + stations == want.len(), "station clocks");
        }
        Err(_) => check(false, "file parses"),
    }
    reach("end");
}

/// the clock header
#[no_mangle]
pub extern "C" fn c21_header() {
    let l = LAYOUTS[choose(4)];
    let what = choose(4);
    let mut h = start(l, "G");
    let mut codes: Vec<usize> = vec![];
    let mut c: Vec<u8> = b"     0".to_vec();
    if what == 0 {
        let n = choose(6);
        let first = if n == 0 { 0 } else { choose(5) };
        for i in 0..n {
            codes.push((first + 2 * i) % 5);
            c.extend_from_slice(b"    ");
            c.extend_from_slice(code(&TYPES[codes[i]]).as_bytes());
        }
        c[5] = b'0' + n as u8;
    }
    label(&mut h, l, &c, "# / TYPES OF DATA");
    let mut name = b"USNO".to_vec();
    let mut igs = b"USN".to_vec();
    let mut full = b"USNO USING GIPSY/OASIS-II".to_vec();
    let mut reference = b"UTC(USNO) MASTER CLOCK VIA CABLE".to_vec();
    let mut domes = b"40451S003".to_vec();
    if what == 1 {
        for b in name.iter_mut().chain(igs.iter_mut()) {
            *b = byte_in(b'!', b'~');
        }
        for i in [0, 4, 12, 24] {
            full[i] = byte_in(b'!', b'~');
            reference[i] = byte_in(b'!', b'~');
        }
    }
    if what == 2 {
        for i in [0, 1, 2, 3, 4, 6, 7, 8] {
            domes[i] = digit();
        }
    }
    let mut c = name.clone();
    c.push(b' ');
    c.extend_from_slice(&domes);
    label(&mut h, l, &c, "STATION NAME / NUM");
    label(&mut h, l, &reference, "STATION CLK REF");
    let mut c = igs.clone();
    c.extend_from_slice(b"  ");
    c.extend_from_slice(&full);
    label(&mut h, l, &c, "ANALYSIS CENTER");
    label(&mut h, l, b"     2 1994 07 14  0  0  0.000000 1994 07 14 20 59 59.000000", "# OF CLK REF");
    let mut work: Vec<(Vec<u8>, Option<Term>)> = vec![];
    for i in 0..2 {
        let wide = l.name_width() == 10;
        let n: &[u8] = if wide && i == 0 { b"AREQ00USA" } else { b"TIBD" };
        let constraint = match (what, i) {
            (3, 0) => [None, Some(Term::known(4)), Some(Term::free())][choose(3)],
            (_, 0) => Some(Term::known(2)),
            _ => None,
        };
        let mut c = n.to_vec();
        c.resize(if wide { 10 } else { 5 }, b' ');
        c.extend_from_slice(&domes);
        c.resize(40, b' ');
        if let Some(t) = &constraint {
            t.put(&mut c);
        }
        label(&mut h, l, &c, "ANALYSIS CLK REF");
        work.push((n.to_vec(), constraint));
    }
    label(&mut h, l, b"", "END OF HEADER");
    match parse(&h) {
        Ok(r) => {
            let f = match &r.header.clock {
                Some(f) => f,
                None => {
                    check(false, "clock header");
                    return;
                }
            };
            check(f.codes.len() == codes.len(), "number of types");
            for (a, b) in f.codes.iter().zip(codes.iter()) {
                check(*a == TYPES[*b], "type of data");
            }
            let is = |a: &Option<String>, b: &[u8]| a.as_ref().map_or(false, |s| same(s.as_bytes(), b));
            check(is(&f.site, &name), "station name");
            check(is(&f.igs, &igs), "analysis center code");
            check(is(&f.full_name, &full), "analysis center");
            check(is(&f.ref_clock, &reference), "station reference clock");
            let number = |d: &Option<DOMES>| d.as_ref().map_or(false, |d| (d.area as i64 == num(&domes[..3])) & (d.site as i64 == num(&domes[3..5])) & (d.sequential as i64 == num(&domes[6..9])));
            check(number(&f.domes), "station number");
            check(f.work_clock.len() == 2, "analysis clocks");
            for (a, (n, t)) in f.work_clock.iter().zip(work.iter()) {
                check(a.name.as_bytes() == &n[..], "analysis clock name");
                check(number(&a.domes), "analysis clock number");
                match (a.constraint, t) {
                    (Some(v), Some(t)) => {
                        observe_f(v);
                        check(v == t.value(), "clock constraint")
                    }
                    (None, None) => (),
                    _ => check(false, "clock constraint, if any"),
                }
            }
        }
        Err(_) => check(false, "file parses"),
    }
    reach("end");
}
