//! C19: ionosphere maps
use crate::util::*;

/// one line of the header grid, in tenths
fn f61(out: &mut Vec<u8>, tenths: i64) {
    let t = format!("{}{}.{}", if tenths < 0 { "-" } else { "" }, tenths.abs() / 10, tenths.abs() % 10);
    for _ in t.len()..6 {
        out.push(b' ');
    }
    out.extend_from_slice(t.as_bytes());
}
fn labelled(out: &mut Vec<u8>, mut line: Vec<u8>, label: &str) {
    while line.len() < 60 {
        line.push(b' ');
    }
    line.extend_from_slice(label.as_bytes());
    line.push(b'\n');
    out.extend_from_slice(&line);
}
fn grid(out: &mut Vec<u8>, g: (i64, i64, i64), label: &str) {
    let mut l = b"  ".to_vec();
    f61(&mut l, g.0);
    f61(&mut l, g.1);
    f61(&mut l, g.2);
    labelled(out, l, label);
}
fn epoch_line(out: &mut Vec<u8>, hour: i64, label: &str) {
    hl(out, &format!("  2021     1     9{:6}     0     0", hour), label);
}
type G = (i64, i64, i64);
struct World {
    text: Vec<u8>,
    lat: G,
    lon: G,
    alt: G,
}
fn start(lat: G, lon: G, alt: G, exponent: Option<i64>) -> World {
    let mut h = vec![];
    hl(&mut h, "     1.0            IONOSPHERE MAPS     GPS", "IONEX VERSION / TYPE");
    hl(&mut h, "CMPCMB V1.0         GRL/UWM             20-JAN-21 00:00", "PGM / RUN BY / DATE");
    epoch_line(&mut h, 0, "EPOCH OF FIRST MAP");
    epoch_line(&mut h, 2, "EPOCH OF LAST MAP");
    hl(&mut h, "  3600", "INTERVAL");
    hl(&mut h, "     3", "# OF MAPS IN FILE");
    hl(&mut h, "  COSZ", "MAPPING FUNCTION");
    hl(&mut h, "    10.0", "ELEVATION CUTOFF");
    hl(&mut h, "  6371.0", "BASE RADIUS");
    hl(&mut h, if alt.2 == 0 { "     2" } else { "     3" }, "MAP DIMENSION");
    grid(&mut h, alt, "HGT1 / HGT2 / DHGT");
    grid(&mut h, lat, "LAT1 / LAT2 / DLAT");
    grid(&mut h, lon, "LON1 / LON2 / DLON");
    if let Some(e) = exponent {
        hl(&mut h, &format!("{:6}", e), "EXPONENT");
    }
    hl(&mut h, "", "END OF HEADER");
    World { text: h, lat, lon, alt }
}
fn count(g: G) -> usize {
    if g.2 == 0 {
        1
    } else {
        ((g.1 - g.0) / g.2 + 1) as usize
    }
}
fn at(g: G, i: usize) -> i64 {
    g.0 + g.2 * i as i64
}
impl World {
    fn cells(&self) -> usize {
        count(self.lat) * count(self.lon) * count(self.alt)
    }
    /// cells of one map, in file order: heights, then latitudes, then longitudes
    fn map(&mut self, kind: &str, nth: usize, hour: i64, exponent: Option<i64>, cells: &[Vec<u8>]) {
        let mut out = vec![];
        hl(&mut out, &format!("{:6}", nth), &format!("START OF {} MAP", kind));
        if let Some(e) = exponent {
            hl(&mut out, &format!("{:6}", e), "EXPONENT");
        }
        epoch_line(&mut out, hour, "EPOCH OF CURRENT MAP");
        let mut c = cells.iter();
        for h in 0..count(self.alt) {
            for la in 0..count(self.lat) {
                let mut l = b"  ".to_vec();
                f61(&mut l, at(self.lat, la));
                f61(&mut l, self.lon.0);
                f61(&mut l, self.lon.1);
                f61(&mut l, self.lon.2);
                f61(&mut l, at(self.alt, h));
                labelled(&mut out, l, "LAT/LON1/LON2/DLON/H");
                for lo in 0..count(self.lon) {
                    if lo > 0 && lo % 16 == 0 {
                        out.push(b'\n');
                    }
                    let v = c.next().unwrap();
                    for _ in v.len()..5 {
                        out.push(b' ');
                    }
                    out.extend_from_slice(v);
                }
                out.push(b'\n');
            }
        }
        hl(&mut out, &format!("{:6}", nth), &format!("END OF {} MAP", kind));
        self.text.extend_from_slice(&out);
    }
    /// the parser drops the last TEC map of a file (known finding c19_kf_last_map)
    fn closing(&mut self) {
        let cells: Vec<Vec<u8>> = (0..self.cells()).map(|_| b"1".to_vec()).collect();
        self.map("TEC", 3, 2, None, &cells);
    }
    /// index of the cell at these coordinates
    fn cell(&self, k: &IonexKey) -> Option<usize> {
        let (nla, nlo) = (count(self.lat), count(self.lon));
        let c = &k.coordinates;
        for h in 0..count(self.alt) {
            for la in 0..nla {
                for lo in 0..nlo {
                    if close(c.latitude_ddeg(), at(self.lat, la) as f64 / 10.0)
                        && close(c.longitude_ddeg(), at(self.lon, lo) as f64 / 10.0)
                        && close(c.altitude_km(), at(self.alt, h) as f64 / 10.0)
                    {
                        return Some((h * nla + la) * nlo + lo);
                    }
                }
            }
        }
        None
    }
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-6
}
fn scaled(v: i64, exponent: i64) -> f64 {
    if exponent >= 0 {
        dec(v * 10i64.pow(exponent as u32), 0)
    } else {
        dec(v, (-exponent) as u32)
    }
}
fn plain(n: usize, from: i64) -> Vec<i64> {
    (0..n).map(|i| from + 11 * i as i64).collect()
}
fn show(v: &[i64]) -> Vec<Vec<u8>> {
    v.iter().map(|x| x.to_string().into_bytes()).collect()
}
fn hour(h: i64) -> Epoch {
    Epoch::from_gregorian_utc(2021, 1, 9, h as u8, 0, 0, 0)
}
/// what is expected: per hour, the value of each cell (None: not available), its RMS
struct Want {
    hour: i64,
    tec: Vec<Option<f64>>,
    rms: Vec<Option<f64>>,
}
fn judge(w: &World, wants: &[Want]) {
    let r = match parse(&w.text) {
        Ok(r) => r,
        Err(_) => {
            check(false, "file parses");
            return;
        }
    };
    let mut seen = vec![vec![false; w.cells()]; wants.len()];
    for (k, tec) in r.ionex_tec_maps_iter() {
        observe_f(tec.tecu());
        if k.epoch == hour(2) {
            continue;
        }
        let e = wants.iter().position(|x| hour(x.hour) == k.epoch);
        let c = w.cell(&k);
        check(e.is_some(), "an epoch of the file");
        check(c.is_some(), "coordinates of the file");
        if let (Some(e), Some(c)) = (e, c) {
            check(!seen[e][c], "one value per cell");
            seen[e][c] = true;
            match wants[e].tec[c] {
                None => check(false, "no value where not available"),
                Some(v) => {
                    check(close(tec.tecu(), v), "TEC of that cell");
                    match (tec.rms_tec(), wants[e].rms[c]) {
                        (None, None) => (),
                        (Some(a), Some(b)) => check(close(a, b), "RMS of that cell"),
                        _ => check(false, "RMS presence"),
                    }
                }
            }
        }
    }
    for (e, x) in wants.iter().enumerate() {
        for (c, v) in x.tec.iter().enumerate() {
            check(seen[e][c] == v.is_some(), "every available cell is read");
        }
    }
    // header
    match &r.header.ionex {
        None => check(false, "ionex header"),
        Some(h) => {
            let t = |x: i64| x as f64 / 10.0;
            for (g, l) in [(w.lat, &h.grid.latitude), (w.lon, &h.grid.longitude), (w.alt, &h.grid.height)] {
                check(l.start == t(g.0) && l.end == t(g.1) && l.spacing == t(g.2), "grid definition");
            }
            check(r.is_ionex_3d() == (w.alt.2 != 0) && r.is_ionex_2d() == (w.alt.2 == 0), "map dimension");
            check(h.mapping == Some(rinex::ionex::MappingFunction::CosZ), "mapping function");
            check(h.number_of_maps == 3, "number of maps");
        }
    }
}
const GRIDS: [(G, G, G); 12] = [
    ((875, 850, -25), (-1800, -1700, 50), (4500, 4500, 0)),
    ((-875, -850, 25), (-1800, -1700, 50), (4500, 4500, 0)),
    ((900, 850, -50), (0, 100, 50), (3500, 3500, 0)),
    // fraction is in the origin only
    ((525, 515, -10), (-105, 145, 125), (4505, 4505, 0)),
    ((175, 125, -50), (75, 95, 10), (4500, 4500, 0)),
    // fraction is in the spacing only
    ((10, 5, -5), (300, 305, 5), (4500, 4500, 0)),
    // across zero
    ((25, -25, -50), (-50, 50, 50), (4500, 4500, 0)),
    ((1, -1, -2), (-3, 1, 2), (4500, 4500, 0)),
    // fields without separation
    ((-875, -875, 0), (-1800, -1000, 400), (4500, 4500, 0)),
    ((600, 500, -100), (-1200, -1100, 100), (4500, 4500, 0)),
    // several heights
    ((600, 575, -25), (100, 150, 50), (2500, 4500, 2000)),
    ((600, 600, 0), (100, 150, 50), (2505, 3505, 500)),
];
/// any value of 1 to 5 digits
fn value(n: usize) -> (Vec<u8>, i64) {
    let d = digits(n);
    if n > 1 {
        assume(d[0] != b'0');
    }
    let v = num(&d);
    (d, v)
}
/// any value, in any one cell of any grid
#[no_mangle]
pub extern "C" fn c19_cells() {
    let g = GRIDS[choose(GRIDS.len())];
    let mut w = start(g.0, g.1, g.2, Some(-1));
    let n = w.cells();
    let which = [0, n / 2, n - 1][choose(3)];
    let a = plain(n, 100);
    let b = plain(n, 2000);
    let (mut ta, tb) = (show(&a), show(&b));
    let mut va: Vec<Option<f64>> = a.iter().map(|x| Some(scaled(*x, -1))).collect();
    let vb = b.iter().map(|x| Some(scaled(*x, -1))).collect();
    let (t, v) = value([1, 4, 3][choose(if thorough() { 3 } else { 2 })]);
    va[which] = if fork(v == 9999) { None } else { Some(scaled(v, -1)) };
    ta[which] = t;
    w.map("TEC", 1, 0, None, &ta);
    w.map("TEC", 2, 1, None, &tb);
    w.closing();
    judge(&w, &[Want { hour: 0, tec: va, rms: vec![None; n] }, Want { hour: 1, tec: vb, rms: vec![None; n] }]);
    reach("end");
}
/// exponents: of the header, of a map
#[no_mangle]
pub extern "C" fn c19_exponents() {
    let (head, own) = [(None, None), (Some(-1), None), (Some(0), None), (Some(-2), None), (Some(-3), None), (Some(1), None), (None, Some(-2)), (Some(-1), Some(-3)), (Some(-2), Some(0)), (Some(-1), Some(1))][choose(10)];
    let g = GRIDS[0];
    let mut w = start(g.0, g.1, g.2, head);
    let n = w.cells();
    let a = plain(n, 100);
    let b = plain(n, 2000);
    let e = head.unwrap_or(-1);
    let f = own.unwrap_or(e);
    let mut ta = show(&a);
    let mut tb = show(&b);
    let mut va: Vec<Option<f64>> = a.iter().map(|x| Some(scaled(*x, e))).collect();
    let mut vb: Vec<Option<f64>> = b.iter().map(|x| Some(scaled(*x, f))).collect();
    let (t, v) = value(3);
    if flip() {
        va[4] = Some(scaled(v, e));
        ta[4] = t;
    } else {
        vb[4] = Some(scaled(v, f));
        tb[4] = t;
    }
    w.map("TEC", 1, 0, None, &ta);
    w.map("TEC", 2, 1, own, &tb);
    w.closing();
    judge(&w, &[Want { hour: 0, tec: va, rms: vec![None; n] }, Want { hour: 1, tec: vb, rms: vec![None; n] }]);
    reach("end");
}
/// values that fill their column, next to each other; several lines per row; missing cells
#[no_mangle]
pub extern "C" fn c19_wide() {
    let lon = [(-50, 100, 50), (-800, 0, 50), (-800, 50, 50)][choose(3)];
    let mut w = start((25, 25, 0), lon, (4500, 4500, 0), Some(-3));
    let n = w.cells();
    let i = [0, 1, n - 2, n / 2][choose(4)];
    let mut tec: Vec<Option<f64>> = vec![];
    let mut txt = vec![];
    let around = choose(3);
    for c in 0..n {
        let (t, v) = if c == i || (c == i + 1 && around == 0) {
            if around == 2 && c == i {
                (b"9999".to_vec(), 9999)
            } else {
                value(5)
            }
        } else {
            let x = 10000 * (around as i64 % 2) + 101 + c as i64;
            (x.to_string().into_bytes(), x)
        };
        tec.push(if fork(v == 9999) { None } else { Some(scaled(v, -3)) });
        txt.push(t);
    }
    w.map("TEC", 1, 0, None, &txt);
    w.closing();
    judge(&w, &[Want { hour: 0, tec, rms: vec![None; n] }]);
    reach("end");
}
/// RMS maps complement the TEC cells of their coordinates and epoch
#[no_mangle]
pub extern "C" fn c19_rms() {
    let layout = choose(4);
    let g = GRIDS[[0, 3, 10][choose(3)]];
    let mut w = start(g.0, g.1, g.2, Some(-1));
    let n = w.cells();
    let a = plain(n, 100);
    let b = plain(n, 2000);
    let ra = plain(n, 30);
    let rb = plain(n, 400);
    let val = |x: &[i64]| -> Vec<Option<f64>> { x.iter().map(|x| Some(scaled(*x, -1))).collect() };
    let (mut va, mut vra, mut vrb) = (val(&a), val(&ra), val(&rb));
    let (mut ta, mut tra, mut trb) = (show(&a), show(&ra), show(&rb));
    let (tb, vb) = (show(&b), val(&b));
    // any value; or missing in either map
    let i = [0, n - 1][choose(2)];
    match choose(4) {
        0 => {
            let (t, v) = value(3);
            tra[i] = t;
            vra[i] = Some(scaled(v, -1));
        }
        1 => {
            let (t, v) = value(4);
            trb[i] = t;
            vrb[i] = if fork(v == 9999) { None } else { Some(scaled(v, -1)) };
        }
        2 => {
            // no TEC: the RMS yields nothing
            ta[i] = b"9999".to_vec();
            va[i] = None;
            vra[i] = None;
        }
        _ => {
            tra[i] = b"9999".to_vec();
            vra[i] = None;
        }
    }
    let none = vec![None; n];
    let height: Vec<Vec<u8>> = (0..n).map(|_| b"7".to_vec()).collect();
    w.map("TEC", 1, 0, None, &ta);
    w.map("TEC", 2, 1, None, &tb);
    let rms;
    match layout {
        0 => {
            // all RMS maps after all TEC maps
            w.closing();
            w.map("RMS", 1, 0, None, &tra);
            w.map("RMS", 2, 1, None, &trb);
            rms = (vra, vrb);
        }
        1 => {
            // of one epoch only, then heights
            w.closing();
            w.map("RMS", 2, 1, None, &trb);
            w.map("HEIGHT", 1, 0, None, &height);
            w.map("HEIGHT", 2, 1, None, &height);
            rms = (none, vrb);
        }
        2 => {
            // its own exponent
            w.closing();
            w.map("RMS", 1, 0, Some(-2), &tra);
            for v in vra.iter_mut() {
                *v = v.map(|v| v / 10.0);
            }
            rms = (vra, none);
        }
        _ => {
            // none
            w.closing();
            rms = (none.clone(), none);
        }
    }
    judge(&w, &[Want { hour: 0, tec: va, rms: rms.0 }, Want { hour: 1, tec: vb, rms: rms.1 }]);
    reach("end");
}
/// a free origin and step, in tenths of degrees
#[no_mangle]
pub extern "C" fn c19_origin() {
    let neg = flip();
    let north = flip();
    let step = [5, 10, 25, 50, 1, 100][choose(6)];
    let d = digits(3);
    assume(d[0] != b'0');
    let t = num(&d);
    let la = if neg { -t } else { t };
    let spacing = if north { step } else { -step };
    // the text of the row, in the engine
    let mut w = start((0, 2 * spacing, spacing), (0, 50, 50), (4500, 4500, 0), Some(-1));
    let a = plain(6, 100);
    let mut h = vec![];
    let row = |l: &mut Vec<u8>, d: &[u8]| {
        l.push(if neg { b'-' } else { b' ' });
        l.push(d[0]);
        l.push(d[1]);
        l.push(b'.');
        l.push(d[2]);
    };
    // single latitude
    let lines: Vec<&[u8]> = w.text.split_inclusive(|c| *c == b'\n').collect();
    for l in lines {
        if l[60..].starts_with(b"LAT1") {
            let mut x = b"   ".to_vec();
            row(&mut x, &d);
            x.push(b' ');
            row(&mut x, &d);
            x.extend_from_slice(b"   0.0");
            labelled(&mut h, x, "LAT1 / LAT2 / DLAT");
        } else {
            h.extend_from_slice(l);
        }
    }
    w.text = h;
    let mut out = vec![];
    for map in 0..2 {
        hl(&mut out, &format!("{:6}", map + 1), "START OF TEC MAP");
        epoch_line(&mut out, map, "EPOCH OF CURRENT MAP");
        let mut x = b"   ".to_vec();
        row(&mut x, &d);
        x.extend_from_slice(b"   0.0   5.0   5.0 450.0");
        labelled(&mut out, x, "LAT/LON1/LON2/DLON/H");
        out.extend_from_slice(format!("{:5}{:5}\n", a[0], a[1]).as_bytes());
        hl(&mut out, &format!("{:6}", map + 1), "END OF TEC MAP");
    }
    w.text.extend_from_slice(&out);
    match parse(&w.text) {
        Err(_) => check(false, "file parses"),
        Ok(r) => {
            let mut n = 0;
            for (k, tec) in r.ionex_tec_maps_iter() {
                observe_f(k.coordinates.latitude_ddeg());
                check(close(k.coordinates.latitude_ddeg(), dec(la, 1)), "latitude");
                check(close(k.coordinates.longitude_ddeg(), if n == 0 { 0.0 } else { 5.0 }), "longitude");
                check(close(k.coordinates.altitude_km(), 450.0), "height");
                check(close(tec.tecu(), scaled(a[n.min(1)], -1)), "TEC");
                n += 1;
            }
            check(n == 2, "two cells");
        }
    }
    reach("end");
}
/// known finding: the last TEC map of a file is dropped
#[no_mangle]
pub extern "C" fn c19_kf_last_map() {
    let g = GRIDS[0];
    let mut w = start(g.0, g.1, g.2, Some(-1));
    let a = plain(w.cells(), 100);
    w.map("TEC", 1, 0, None, &show(&a));
    let maps = choose(2) + 1;
    if maps == 2 {
        w.map("TEC", 2, 1, None, &show(&a));
    }
    match parse(&w.text) {
        Err(_) => check(false, "file parses"),
        Ok(r) => {
            let n = r.ionex_tec_maps_iter().count();
            observe(n as u64);
            check(n == maps * a.len(), "every TEC map is read");
        }
    }
    reach("end");
}
