//! C24: map grids are accepted and searched by their grid points
use crate::util::*;

fn header(lines: &[(&str, &[u8])]) -> Vec<u8> {
    let mut h = vec![];
    hl(&mut h, "     1.0            IONOSPHERE MAPS     GPS", "IONEX VERSION / TYPE");
    for (l, c) in lines {
        let mut c = c.to_vec();
        c.resize(60, b' ');
        h.extend_from_slice(&c);
        h.extend_from_slice(l.as_bytes());
        h.push(b'\n');
    }
    hl(&mut h, "", "END OF HEADER");
    h
}
/// F6.1, in tenths; digits kept symbolic
fn f61(out: &mut Vec<u8>, neg: bool, d: &[u8]) {
    for _ in d.len() + 1 + neg as usize..6 {
        out.push(b' ');
    }
    if neg {
        out.push(b'-');
    }
    out.extend_from_slice(&d[..d.len() - 1]);
    out.push(b'.');
    out.push(d[d.len() - 1]);
}
fn concrete(k: i64) -> (bool, Vec<u8>) {
    (k < 0, format!("{:02}", k.abs()).into_bytes())
}
fn spelled(f: &(bool, Vec<u8>)) -> i64 {
    let k = num(&f.1);
    if f.0 {
        -k
    } else {
        k
    }
}
const LABELS: [&str; 3] = ["HGT1 / HGT2 / DHGT", "LAT1 / LAT2 / DLAT", "LON1 / LON2 / DLON"];

fn accept(axis: usize, s: (bool, Vec<u8>), e: (bool, Vec<u8>), p: (bool, Vec<u8>)) {
    let mut line = b"  ".to_vec();
    f61(&mut line, s.0, &s.1);
    f61(&mut line, e.0, &e.1);
    f61(&mut line, p.0, &p.1);
    let t = header(&[(LABELS[axis], &line)]);
    let (s, e, p) = (spelled(&s), spelled(&e), spelled(&p));
    let r = parse(&t);
    // (e - s) is a whole, non negative, number of p
    let valid = if fork(p == 0) {
        s == e
    } else {
        ((e - s) % p == 0) & (((e >= s) & (p > 0)) | ((e <= s) & (p < 0)))
    };
    match r {
        Ok(r) => {
            check(valid, "a grid whose spacing does not lead from start to end is rejected");
            match &r.header.ionex {
                Some(i) => {
                    let g = [&i.grid.height, &i.grid.latitude, &i.grid.longitude][axis];
                    observe_f(g.end);
                    check(g.start == dec(s, 1), "start");
                    check(g.end == dec(e, 1), "end");
                    check(g.spacing == dec(p, 1), "spacing");
                    check(g.is_single_point() == ((s == e) & (p == 0)), "single point");
                    if axis == 0 {
                        check(i.grid.is_2d_grid() == ((s == e) & (p == 0)), "2D maps");
                        check(i.grid.is_3d_grid() != i.grid.is_2d_grid(), "3D maps");
                    }
                }
                None => check(false, "IONEX header"),
            }
        }
        Err(_) => check(!valid, "a grid whose spacing leads from start to end is accepted"),
    }
    reach("end");
}
const SPACINGS: [i64; 12] = [1, 2, 3, 5, 7, 10, 25, 50, 73, 100, 125, 450];
const STARTS: [i64; 8] = [0, 1, -875, 875, -1800, 1800, 4500, -13];

/// any end
#[no_mangle]
pub extern "C" fn c24_end() {
    let sp = SPACINGS[choose(12)];
    let s = STARTS[choose(8)];
    let sp = if flip() { -sp } else { sp };
    let n = if thorough() { 4 } else { 3 };
    // either sign; thorough: up to 999.9
    let e = (flip(), digits(n));
    accept(choose(3), concrete(s), e, concrete(sp));
}
/// any start
#[no_mangle]
pub extern "C" fn c24_start() {
    let sp = SPACINGS[choose(12)];
    let e = STARTS[choose(8)];
    let sp = if flip() { -sp } else { sp };
    let n = if thorough() { 4 } else { 3 };
    let s = (flip(), digits(n));
    accept(choose(3), s, concrete(e), concrete(sp));
}
/// any spacing
#[no_mangle]
pub extern "C" fn c24_spacing() {
    let (s, e) = [(-875, 875), (875, -875), (-1800, 1800), (1800, -1800), (0, 0), (4500, 4500), (3500, 5500), (5, 995), (1, 2), (-1, 1), (0, 9999), (100, 127)][choose(12)];
    let n = 2 + choose(2);
    accept(choose(3), concrete(s), concrete(e), (flip(), digits(n)));
}

const GRIDS: [(i64, i64, i64); 14] = [
    (-875, 875, 25),
    (875, -875, -25),
    (-1800, 1800, 50),
    (1800, -1800, -50),
    (0, 10, 1),
    (10, 0, -1),
    (-9, 12, 7),
    (12, -9, -7),
    (4500, 4500, 0),
    (-35, -35, 0),
    (0, 900, 3),
    (-777, 333, 10),
    (1000, 2000, 1000),
    (-1, 1, 2),
];
/// any point looked up
#[no_mangle]
pub extern "C" fn c24_lookup() {
    let (s, e, p) = GRIDS[choose(14)];
    let t = header(&[("LAT1 / LAT2 / DLAT", &{
        let mut l = b"  ".to_vec();
        for k in [s, e, p] {
            let c = concrete(k);
            f61(&mut l, c.0, &c.1);
        }
        l
    })]);
    let r = match parse(&t) {
        Ok(r) => r,
        Err(_) => {
            check(false, "header parses");
            return;
        }
    };
    let g = &r.header.ionex.as_ref().unwrap().grid.latitude;
    let (low, high, step) = if s <= e { (s, e, p) } else { (e, s, -p) };
    // hundredths, tenths of the grid being whole
    let around = choose(4);
    let (a, b) = match around {
        0 => (10 * low - 300, 10 * low + 300),
        1 => (10 * high - 300, 10 * high + 300),
        2 => (10 * low, 10 * low + 5000),
        _ => {
            let mid = 5 * (low + high);
            (mid - 2000, mid + 2000)
        }
    };
    let k = int(a, b);
    let x = dec(k, 2);
    let inside = (k >= 10 * low) & (k <= 10 * high);
    let near = |v: f64, tenths: i64| (v - dec(tenths, 1)).abs() < 1e-7;
    match g.nearest_lower(x) {
        Some(v) => {
            observe_f(v);
            check(inside, "nothing below a point out of the grid");
            let want = if step == 0 { low } else { low + (k - 10 * low) / (10 * step) * step };
            check(near(v, want), "nearest lower point");
        }
        None => check(!inside, "a point of the grid lies below"),
    }
    match g.nearest_above(x) {
        Some(v) => {
            observe_f(v);
            check(inside & (step != 0), "nothing above a point out of the grid");
            if step != 0 {
                let want = low + ((k - 10 * low) / (10 * step) + 1) * step;
                check(want <= high, "not beyond the grid");
                check(near(v, want), "nearest point above");
            }
        }
        None => check(!inside | (step == 0) | (k >= 10 * high), "a point of the grid lies above"),
    }
    reach("end");
}
/// grids that start one step from zero
#[no_mangle]
pub extern "C" fn c24_length() {
    let p = [1, 2, 5, 10, 25, 50, 73][choose(7)];
    let n = 1 + choose(24) as i64 * if p < 40 { 7 } else { 3 };
    length(p, n * p, p, n);
    reach("end");
}
fn length(s: i64, e: i64, p: i64, n: i64) {
    let mut l = b"  ".to_vec();
    for k in [s, e, p] {
        let c = concrete(k);
        f61(&mut l, c.0, &c.1);
    }
    match parse(&header(&[("LON1 / LON2 / DLON", &l)])) {
        Ok(r) => {
            let got = r.header.ionex.as_ref().unwrap().grid.longitude.length();
            observe(got as u64);
            check(got as i64 == n, "number of points");
        }
        Err(_) => check(false, "header parses"),
    }
}
/// known finding: the number of points is wrong unless the grid starts one step from zero
#[no_mangle]
pub extern "C" fn c24_kf_length() {
    length(-1800, 1800, 50, 73);
    reach("end");
}
