//! C03: CRINEX decompression rebuilds the RINEX observations
use crate::util::*;
use rinex::hatanaka::Decompressor;
use rinex::observation::{LliFlags, SNR};
use std::collections::HashMap;

/// one constellation's satellites and observables
type Sys = (char, Vec<&'static str>, Vec<&'static str>);

fn systems(v3: bool) -> Vec<Sys> {
    if v3 {
        vec![
            ('G', vec!["G07", "G31"], vec!["C1C", "L1C", "S1C"]),
            ('R', vec!["R05"], vec!["C1C", "L1P"]),
            ('S', vec!["S23"], vec!["D1C"]),
        ]
    } else {
        let o = vec!["C1", "L1", "L2", "P2", "S1", "D1", "S2"];
        vec![('G', vec!["G07", "G31"], o.clone()), ('R', vec!["R05"], o)]
    }
}
fn header(v3: bool, sys: &[Sys]) -> Vec<u8> {
    let mut h = vec![];
    hl(&mut h, if v3 { "3.0                 COMPACT RINEX FORMAT" } else { "1.0                 COMPACT RINEX FORMAT" }, "CRINEX VERS   / TYPE");
    hl(&mut h, "RNX2CRX ver.4.0.7                       28-Dec-21 00:17", "CRINEX PROG / DATE");
    hl(&mut h, if v3 { "     3.04           OBSERVATION DATA    M (MIXED)" } else { "     2.11           OBSERVATION DATA    M (MIXED)" }, "RINEX VERSION / TYPE");
    for (c, _, obs) in sys {
        if v3 {
            let mut l = format!("{}{:5}", c, obs.len());
            for o in obs.iter() {
                l.push_str(&format!("{:>4}", o));
            }
            hl(&mut h, &l, "SYS / # / OBS TYPES");
        } else if *c == 'G' {
            let mut l = format!("{:6}", obs.len());
            for o in obs.iter() {
                l.push_str(&format!("{:>6}", o));
            }
            hl(&mut h, &l, "# / TYPES OF OBSERV");
        }
    }
    hl(&mut h, "  2022     3     4     0     0    0.0000000     GPS", "TIME OF FIRST OBS");
    hl(&mut h, "", "END OF HEADER");
    h
}
/// epoch line as it is spelled at initialisation
fn epoch_line(v3: bool, minute: u8, svs: &[&str]) -> Vec<u8> {
    let mut l = if v3 {
        format!("> 2022 03 04 00 {:02} 00.0000000  0{:3}      ", minute, svs.len())
    } else {
        format!("&22  3  4  0 {:2}  0.0000000  0{:3}", minute, svs.len())
    };
    for s in svs {
        l.push_str(s);
    }
    l.into_bytes()
}
/// text difference of two lines (reference)
fn text_diff(old: &[u8], new: &[u8]) -> Vec<u8> {
    let mut r = vec![];
    for i in 0..old.len().max(new.len()) {
        let a = if i < old.len() { old[i] } else { b' ' };
        let b = if i < new.len() { new[i] } else { b' ' };
        r.push(if a == b {
            b' '
        } else if b == b' ' {
            b'&'
        } else {
            b
        });
    }
    while r.last() == Some(&b' ') {
        r.pop();
    }
    r
}
fn binomial(n: usize, k: usize) -> i64 {
    let mut r = 1i64;
    for i in 0..k {
        r = r * (n - i) as i64 / (i + 1) as i64;
    }
    r
}
/// reference: samples since the last initialisation, and order of the arc
#[derive(Clone, Default)]
struct Arc {
    order: usize,
    past: Vec<i64>,
}
impl Arc {
    /// what the next sample would be if its differential were null
    fn prediction(&self) -> i64 {
        let n = self.past.len();
        let k = self.order.min(n);
        let mut p = 0;
        for i in 1..=k {
            let c = binomial(k, i) * self.past[n - i];
            if i % 2 == 1 {
                p += c
            } else {
                p -= c
            }
        }
        p
    }
}
/// any signed number of n digits, spelled; its value
fn free_number(t: &mut Vec<u8>, n: u32, neg: bool) -> i64 {
    if neg {
        t.push(b'-');
    }
    let top = 10i64.pow(n - 1);
    // (long ones: away from the powers of ten)
    let v = match n {
        1 => int(0, 9),
        7 | 12 => int(2 * top, 9 * top),
        _ => int(top, 10 * top - 1),
    };
    let mut w = 10u64.pow(n - 1);
    while w > 0 {
        t.push(b'0' + (v as u64 / w % 10) as u8);
        w /= 10;
    }
    if neg {
        -v
    } else {
        v
    }
}
struct Expected {
    sv: SV,
    ob: Observable,
    value: i64,
    lli: u8,
    snr: u8,
}
fn verify(r: &Rinex, epochs: &[(u8, Vec<Expected>)]) {
    let rec = match r.record.as_obs() {
        Some(r) => r,
        None => {
            check(false, "observations");
            return;
        }
    };
    observe(rec.len() as u64);
    check(rec.len() == epochs.len(), "number of epochs");
    for (k, o) in rec.iter() {
        let (_, _, _, _, m, _, _) = k.epoch.to_gregorian(TimeScale::GPST);
        let cells = match epochs.iter().filter(|(e, _)| *e == m).next() {
            Some((_, c)) => c,
            None => {
                check(false, "epochs");
                return;
            }
        };
        check(o.signals.len() == cells.len(), "number of signals");
        for c in cells.iter() {
            let mut n = 0;
            for s in o.signals.iter() {
                if s.sv == c.sv && s.observable == c.ob {
                    n += 1;
                    observe_f(s.value);
                    check(s.value == dec(c.value, 3), "value");
                    match s.lli {
                        Some(l) => check(l == LliFlags::from_bits_truncate(c.lli - b'0'), "LLI"),
                        None => check(c.lli == b' ', "LLI kept"),
                    }
                    match s.snr {
                        Some(x) => check(x == SNR::from(c.snr - b'0'), "SNR"),
                        None => check(c.snr == b' ', "SNR kept"),
                    }
                }
            }
            check(n == 1, "each signal once");
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Free {
    /// differentials of the focused observable
    Values,
    /// its presence at each epoch
    Presence,
    /// its flags
    Flags,
}
/// several epochs of fixed satellites; one observable of one satellite is free
fn stream(v3: bool, free: Free, nepochs: usize) {
    let sys = systems(v3);
    let mut svs: Vec<(&str, &Sys)> = vec![];
    for s in sys.iter() {
        for n in s.1.iter() {
            svs.push((n, s));
        }
    }
    let total: usize = svs.iter().map(|(_, s)| s.2.len()).sum();
    let order = if free == Free::Values { 1 + choose(5) } else { 3 };
    let focus = if free != Free::Presence && !thorough() { [0, total / 2, total - 1][choose(3)] } else { choose(total) };
    // every other observable: present everywhere, or absent, or absent from the second epoch
    let others = if free == Free::Values { (order + focus) % 2 } else { choose(3) };
    let trimmed = if free == Free::Values { order % 3 == 0 } else { choose(2) == 1 };

    let names: Vec<&str> = svs.iter().map(|x| x.0).collect();
    let mut text = header(v3, &sys);
    let mut arcs = vec![Arc::default(); total];
    let mut flags: Vec<Vec<u8>> = vec![vec![]; svs.len()];
    let mut line = vec![];
    let mut small = false;
    let mut epochs = vec![];
    for e in 0..nepochs {
        let full = epoch_line(v3, e as u8, &names);
        if e == 0 {
            text.extend_from_slice(&full);
        } else {
            text.push(b' ');
            text.extend_from_slice(&text_diff(&line, &full[1..]));
        }
        line = full[1..].to_vec();
        text.extend_from_slice(b"\n\n");
        let mut k = 0;
        let mut cells = vec![];
        for (i, (name, s)) in svs.iter().enumerate() {
            let mut newflags = vec![];
            let mut row: Vec<u8> = vec![];
            for o in s.2.iter() {
                let focused = k == focus;
                let present = if focused {
                    free != Free::Presence || flip()
                } else {
                    match others {
                        0 => true,
                        1 => k % 2 == 1,
                        _ => e == 0 || k % 3 != 1,
                    }
                };
                let (mut lli, mut snr) = (b' ', b' ');
                if present {
                    let arc = &mut arcs[k];
                    let value;
                    if arc.past.is_empty() {
                        arc.order = if focused { order } else { 3 };
                        row.push(b'0' + arc.order as u8);
                        row.push(b'&');
                        if focused && free == Free::Values {
                            small = false;
                            value = match choose(3) {
                                0 => free_number(&mut row, 12, false),
                                1 => free_number(&mut row, 7, true),
                                _ => {
                                    small = true;
                                    row.push(b'5');
                                    5
                                }
                            };
                        } else {
                            value = 20_000_000_000 + 1_000_000 * k as i64;
                            row.extend_from_slice(value.to_string().as_bytes());
                        }
                    } else {
                        let p = arc.prediction();
                        if focused && free == Free::Values {
                            value = p + free_number(&mut row, if small { 1 } else if e == 1 { [1, 2, 4][choose(3)] } else { 2 }, flip());
                        } else {
                            value = 20_000_000_000 + 1_000_000 * k as i64 + 7 * (e * e) as i64;
                            row.extend_from_slice((value - p).to_string().as_bytes());
                        }
                    }
                    arc.past.push(value);
                    if focused && free == Free::Flags {
                        // (the first epoch's flags: representative)
                        lli = if e == 0 { byte_of(b" 3") } else { byte_of(b" 01234567") };
                        snr = if e == 0 { byte_of(b" 8") } else { byte_of(b" 123456789") };
                    } else if k % 2 == 0 {
                        snr = b'7';
                    }
                    cells.push(Expected { sv: sv(name), ob: ob(o), value, lli, snr });
                } else {
                    arcs[k].past.clear();
                }
                row.push(b' ');
                newflags.push(lli);
                newflags.push(snr);
                k += 1;
            }
            // branch-free: the focused flags may be symbolic
            let old = &flags[i];
            let mut d = vec![];
            for j in 0..newflags.len() {
                let a = if j < old.len() { old[j] } else { b' ' };
                let b = newflags[j];
                d.push(if fork(a == b) {
                    b' '
                } else if fork(b == b' ') {
                    b'&'
                } else {
                    b
                });
            }
            row.extend_from_slice(&d);
            if trimmed {
                while !row.is_empty() && fork(row[row.len() - 1] == b' ') {
                    row.pop();
                }
            }
            flags[i] = newflags;
            text.extend_from_slice(&row);
            text.push(b'\n');
        }
        epochs.push((e as u8, cells));
    }
    match parse(&text) {
        Ok(r) => verify(&r, &epochs),
        Err(_) => check(false, "parses"),
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c03_v3_values() {
    stream(true, Free::Values, if thorough() { 5 } else { 3 })
}
#[no_mangle]
pub extern "C" fn c03_v3_presence() {
    stream(true, Free::Presence, if thorough() { 5 } else { 4 })
}
#[no_mangle]
pub extern "C" fn c03_v3_flags() {
    stream(true, Free::Flags, if thorough() { 3 } else { 2 })
}
#[no_mangle]
pub extern "C" fn c03_v1_values() {
    stream(false, Free::Values, if thorough() { 4 } else { 2 })
}
#[no_mangle]
pub extern "C" fn c03_v1_presence() {
    stream(false, Free::Presence, 3)
}
#[no_mangle]
pub extern "C" fn c03_v1_flags() {
    stream(false, Free::Flags, 2)
}
fn codes(v3: bool, n: usize) -> HashMap<Constellation, Vec<Observable>> {
    let names = ["C1C", "L1C", "S1C", "C2W", "L2W", "S2W", "C5Q", "L5Q", "S5Q", "D1C", "D2W", "D5Q"];
    let old = ["C1", "L1", "S1", "P2", "L2", "S2", "C5", "L5", "S5", "D1", "D2", "D5"];
    let v: Vec<Observable> = (if v3 { &names } else { &old }).iter().take(n).map(|s| ob(s)).collect();
    let mut m = HashMap::new();
    if v3 {
        m.insert(Constellation::GPS, v.clone());
        m.insert(Constellation::SBAS, v);
    } else {
        m.insert(Constellation::Mixed, v);
    }
    m
}
fn feed(d: &mut Decompressor, line: &[u8], newline: bool) -> Vec<u8> {
    let mut l = line.to_vec();
    if newline {
        l.push(b'\n');
    }
    let mut buf = [0u8; 1024];
    match d.decompress(text(&l), l.len(), &mut buf, 1024) {
        Ok(n) => buf[..n].to_vec(),
        Err(_) => {
            check(false, "decompresses");
            vec![]
        }
    }
}
/// same lines, up to trailing blanks (and trailing empty lines)
fn same_lines(got: &[u8], want: &[u8], id: &str) {
    let trim = |t: &[u8]| -> Vec<Vec<u8>> {
        let mut r = vec![];
        for l in t.split(|b| *b == b'\n') {
            let mut l = l.to_vec();
            while l.last() == Some(&b' ') {
                l.pop();
            }
            r.push(l);
        }
        while r.len() > 1 && r[r.len() - 1].is_empty() {
            r.pop();
        }
        r
    };
    let (a, b) = (trim(got), trim(want));
    check(a.len() == b.len(), id);
    let mut ok = true;
    for (x, y) in a.iter().zip(b.iter()) {
        ok &= same(x, y);
    }
    for x in a.iter() {
        observe(x.len() as u64);
    }
    check(ok, id);
}
/// text of one satellite's line(s): which observables are there, where the line ends
fn lines(v3: bool) {
    let n = 1 + choose(12);
    let newline = choose(2) == 1;
    let mut d = Decompressor::new(v3, Constellation::Mixed, codes(v3, n));
    let svs = ["G07", "S23"];
    feed(&mut d, &epoch_line(v3, 0, &svs), newline);
    let e = feed(&mut d, b"", newline);
    if v3 {
        same_lines(&e, b"> 2022 03 04 00 00 00.0000000  0  2", "epoch line");
    } else {
        same_lines(&e, b" 22  3  4  0  0  0.0000000  0  2G07S23", "epoch line");
    }
    // contiguous blanks: from a to b
    let a = choose(n + 1);
    let b = match choose(3) {
        0 => a,
        1 => (a + 1).min(n),
        _ => n,
    };
    let lli = byte_of(b" 01234567");
    let with_flags = choose(2) == 1;
    let trimmed = choose(2) == 1;
    for s in svs.iter() {
        let mut row = vec![];
        let mut flags = vec![];
        let mut want = if v3 { s.as_bytes().to_vec() } else { vec![] };
        for i in 0..n {
            if i > 0 && i % 5 == 0 && !v3 {
                want.push(b'\n');
            }
            if i >= a && i < b {
                want.extend_from_slice(b"                ");
                flags.extend_from_slice(b"  ");
            } else {
                row.extend_from_slice(format!("3&{}", 20_000_000_500u64 + i as u64).as_bytes());
                want.extend_from_slice(format!("  20000000.{:3}", 500 + i).as_bytes());
                let f = if with_flags && i % 4 != 3 { [lli, b'1' + (i % 9) as u8] } else { [b' ', b' '] };
                want.extend_from_slice(&f);
                flags.extend_from_slice(&f);
            }
            row.push(b' ');
        }
        row.extend_from_slice(&flags);
        if trimmed {
            while !row.is_empty() && fork(row[row.len() - 1] == b' ') {
                row.pop();
            }
        }
        let got = feed(&mut d, &row, newline);
        same_lines(&got, &want, "observation line");
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c03_v3_lines() {
    lines(true)
}
#[no_mangle]
pub extern "C" fn c03_v1_lines() {
    lines(false)
}
const SATS: [&str; 40] = [
    "G01", "G02", "G03", "G04", "G05", "G06", "G07", "G08", "G09", "G10", "G11", "G12", "G13", "G14", "G15", "G16", "G17", "G18", "G19", "G20", "R01", "R02", "R03", "R04", "R05", "R06", "R07", "R08",
    "R09", "R10", "R11", "R12", "R13", "R14", "E11", "E12", "E19", "E24", "S23", "S36",
];
/// epoch lines: 1 to 26 satellites, then another number of them; clock offsets
fn epoch_lines(v3: bool) {
    let n = [1, 2, 11, 12, 13, 24, 25, 36, 40][choose(9)];
    let m = [1, 2, 12, 13, 24, 37][choose(6)];
    let newline = choose(2) == 1;
    let names = if v3 { ["C1C", "L1C"] } else { ["C1", "L1"] };
    let mut codes = HashMap::new();
    for c in [Constellation::GPS, Constellation::Glonass, Constellation::Galileo, Constellation::SBAS] {
        codes.insert(c, names.iter().map(|s| ob(s)).collect::<Vec<_>>());
    }
    let mut d = Decompressor::new(v3, Constellation::Mixed, codes);
    // receiver clock offset: none, initialised then continued
    let clock = flip();
    let mut old: Vec<u8> = vec![];
    let tenth = digit();
    for (e, k) in [n, m].iter().enumerate() {
        let svs = &SATS[(e * (40 - k))..(e * (40 - k) + k)];
        let mut full = epoch_line(v3, e as u8, svs);
        // any tenth of second at the second epoch
        if e == 1 {
            let at = if v3 { 22 } else { 19 };
            full[at] = tenth;
        }
        if e == 0 {
            check(feed(&mut d, &full, newline).is_empty(), "epoch line is pending");
        } else {
            let mut l = vec![b' '];
            l.extend_from_slice(&text_diff_fork(&old, &full[1..]));
            check(feed(&mut d, &l, newline).is_empty(), "epoch line is pending");
        }
        old = full[1..].to_vec();
        let (text, value): (&[u8], &str) = match (clock, v3, e) {
            (false, _, _) => (b"", ""),
            (_, true, 0) => (b"3&-123456789", "-0.000123456789"),
            (_, true, _) => (b"-211", "-0.000123457000"),
            (_, false, 0) => (b"3&-123456789", "-0.123456789"),
            (_, false, _) => (b"-211", "-0.123457000"),
        };
        let got = feed(&mut d, text, newline);
        let mut want = full.clone();
        if v3 {
            want.truncate(35);
            want[1] = b' ';
            if clock {
                want.extend_from_slice(b"      ");
                want.extend_from_slice(value.as_bytes());
            }
        } else {
            want[0] = b' ';
            let mut w = vec![];
            for (i, c) in want[32..].chunks(36).enumerate() {
                if i == 0 {
                    w.extend_from_slice(&want[..32]);
                } else {
                    w.extend_from_slice(b"                                ");
                }
                w.extend_from_slice(c);
                if i == 0 && clock {
                    while w.len() < 68 {
                        w.push(b' ');
                    }
                    w.extend_from_slice(value.as_bytes());
                }
                w.push(b'\n');
            }
            want = w;
        }
        same_lines(&got, &want, "epoch line");
        for _ in 0..*k {
            let r = feed(&mut d, b"3&1000 3&2000", newline);
            check(r.len() > 20, "observations follow");
        }
    }
    reach("end");
}
fn text_diff_fork(old: &[u8], new: &[u8]) -> Vec<u8> {
    let mut r = vec![];
    for i in 0..old.len().max(new.len()) {
        let a = if i < old.len() { old[i] } else { b' ' };
        let b = if i < new.len() { new[i] } else { b' ' };
        r.push(if fork(a == b) {
            b' '
        } else if b == b' ' {
            b'&'
        } else {
            b
        });
    }
    while r.last() == Some(&b' ') {
        r.pop();
    }
    r
}
#[no_mangle]
pub extern "C" fn c03_v3_epochs() {
    epoch_lines(true)
}
#[no_mangle]
pub extern "C" fn c03_v1_epochs() {
    epoch_lines(false)
}
