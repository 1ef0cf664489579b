//! Encoder and reference model: turns a FileSpec into bytes together with an independent description of
//! what a reader must report about them. It shares no code with the library under test.

use crate::rng::{mix, Rng};
use crate::spec::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Sect {
    pub num: u8,
    pub off: usize,
    pub size: usize,
}

#[derive(Clone, Debug)]
pub enum Expect {
    /// None: missing
    Values(Vec<Option<(f64, f64)>>),
    Refused,
}

#[derive(Clone, Debug, Default)]
pub struct ProdModel {
    pub tmpl: u16,
    pub cat: Option<u8>,
    pub num: Option<u8>,
    pub genproc: Option<u8>,
    pub forecast: Option<(u8, u32)>,
    pub surfaces: Option<[(u8, i8, i32); 2]>,
    /// not judged: generating process (1), forecast time (2)
    pub unsure: u8,
}

#[derive(Clone, Debug)]
pub struct SubModel {
    pub idx: (usize, usize),
    /// index into Built::sects of each section (8: of the enclosing message's end section)
    pub s: [Option<usize>; 9],
    pub last_in_msg: bool,
    pub grid: GridSpec,
    pub prod: ProdModel,
    pub repr: u16,
    pub bmp_kind: u8,
    pub npts: usize,
    pub nenc: usize,
    pub expect: Expect,
    pub disc: u8,
    pub nbit: u8,
}

#[derive(Clone, Debug)]
pub struct IdModel {
    pub centre: u16,
    pub subcentre: u16,
    pub mtv: u8,
    pub ltv: u8,
    pub rts: u8,
    pub date: (u16, u8, u8, u8, u8, u8),
    pub date_ok: bool,
    pub status: u8,
    pub dtype: u8,
}

#[derive(Clone, Debug)]
pub struct MsgModel {
    pub off: usize,
    pub len: usize,
    pub sect0: usize,
    pub nsects: usize,
    pub sub0: usize,
    pub nsubs: usize,
    pub disc: u8,
    pub id: IdModel,
}

#[derive(Clone, Debug, Default)]
pub struct Built {
    pub bytes: Vec<u8>,
    pub start: usize,
    pub sects: Vec<Sect>,
    pub msgs: Vec<MsgModel>,
    pub subs: Vec<SubModel>,
}

impl Built {
    pub fn total_points(&self) -> usize {
        self.subs.iter().map(|s| s.npts).sum()
    }
}

pub const MAX_POINTS: u64 = 300_000;

pub fn junk(kind: u8, len: usize, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed ^ 0x6a75_6e6b);
    let mut v: Vec<u8> = match kind % 4 {
        0 => vec![0; len],
        1 => (0..len).map(|_| r.u64() as u8).collect(),
        2 => {
            let mut v = Vec::with_capacity(len + 8);
            while v.len() < len {
                v.extend_from_slice(*r.pick(&[&b"GRI"[..], b"GR", b"7777", b"GRI\0B", b"B", b"\r\n", b"GGRI", b"RIB"]));
            }
            v.truncate(len);
            v
        }
        _ => vec![b'G'; len],
    };
    // no accidental message header, also not across the boundary to a following header
    let n = v.len();
    for i in 0..n.saturating_sub(3) {
        if &v[i..i + 4] == b"GRIB" {
            v[i + 3] = b'x';
        }
    }
    v
}

fn signmag(v: i64, octets: usize) -> Vec<u8> {
    let mut m = v.unsigned_abs();
    let top = 1u64 << (8 * octets - 1);
    m &= top - 1;
    if v < 0 {
        m |= top;
    }
    m.to_be_bytes()[8 - octets..].to_vec()
}

#[derive(Default)]
pub struct Bits {
    pub v: Vec<u8>,
    nbits: usize,
}

impl Bits {
    pub fn put(&mut self, val: u64, n: usize) {
        for k in (0..n).rev() {
            if self.nbits % 8 == 0 {
                self.v.push(0);
            }
            if (val >> k) & 1 == 1 {
                *self.v.last_mut().unwrap() |= 0x80 >> (self.nbits % 8);
            }
            self.nbits += 1;
        }
    }
    pub fn align(&mut self) {
        self.nbits = self.v.len() * 8;
    }
    pub fn pad_bits(&self) -> usize {
        self.v.len() * 8 - self.nbits
    }
}

fn bits_for(v: u64) -> usize {
    64 - v.leading_zeros() as usize
}

/// Effective grid: every parameter brought into a range in which the specification is unambiguous.
pub fn eff_grid(g: &GridSpec) -> GridSpec {
    let mut e = g.clone();
    e.tmpl = match g.tmpl {
        0 | 20 | 30 | 40 | 101 => g.tmpl,
        _ => 0,
    };
    e.ni = g.ni.clamp(1, 100_000);
    e.nj = g.nj.clamp(1, 100_000);
    e.list &= e.tmpl == 0 || e.tmpl == 40;
    if e.tmpl != 40 {
        e.more = (0, 0);
    }
    e.more = (e.more.0.min(100), e.more.1.min(100));
    let sub = e.more != (0, 0);
    if e.tmpl == 40 {
        e.nj = if sub { e.nj.min(160) } else { (e.nj.min(160) / 2).max(1) * 2 };
        e.ni = e.ni.min(512);
    }
    while u64::from(e.ni) * u64::from(e.nj) > MAX_POINTS {
        e.nj = (e.nj / 2).max(1);
        if e.tmpl == 40 && !sub {
            e.nj = (e.nj / 2).max(1) * 2;
        }
        if e.nj <= 2 {
            e.ni = e.ni.min(2000);
        }
    }
    let neg = g.lon1 < 0 || g.lon2 < 0;
    let q = BASIC[usize::from(g.basic) % BASIC.len()].2;
    let norm = |v: i32| -> i32 {
        let v = if neg { v.clamp(-179_999_999, 179_999_999) } else { v.clamp(0, 359_999_999) };
        v / q * q
    };
    e.lon1 = norm(g.lon1);
    e.lon2 = norm(g.lon2);
    if e.ni == 1 {
        e.lon2 = e.lon1;
    } else if e.lon1 == e.lon2 {
        e.lon2 = if e.lon1 > 90_000_000 { e.lon1 - 60_000_000 } else { e.lon1 + 60_000_000 };
    }
    let plus_j = g.scan & 0x40 != 0;
    let lat = |v: i32| v.clamp(-90_000_000, 90_000_000) / q * q;
    e.lat1 = lat(g.lat1);
    e.lat2 = lat(g.lat2);
    if e.tmpl == 40 {
        // a grid that covers a subarea may have any number of rows
        e.more.1 += (e.nj as u8 & 1) ^ ((e.more.0 ^ e.more.1) & 1);
        let ls = gauss_lats(e.nj as usize + usize::from(e.more.0) + usize::from(e.more.1));
        let at = |k: usize| (ls[usize::from(e.more.0) + k] * 1e6).round() as i32 / q * q;
        let (a, b) = (at(0), at(e.nj as usize - 1));
        (e.lat1, e.lat2) = if plus_j { (b, a) } else { (a, b) };
    } else if e.nj == 1 {
        e.lat2 = e.lat1;
    } else {
        if e.lat1 == e.lat2 {
            e.lat2 = if e.lat1 > 0 { e.lat1 - 30_000_000 } else { e.lat1 + 30_000_000 };
        }
        if (e.lat2 > e.lat1) != plus_j {
            std::mem::swap(&mut e.lat1, &mut e.lat2);
        }
    }
    e
}

/// Gaussian latitudes in degrees, north to south (roots of P_n by bisection-safe Newton in f64).
pub fn gauss_lats(n: usize) -> Vec<f64> {
    let p = |x: f64| -> (f64, f64) {
        let (mut a, mut b) = (1.0f64, x);
        for k in 2..=n {
            let c = ((2 * k - 1) as f64 * x * b - (k - 1) as f64 * a) / k as f64;
            a = b;
            b = c;
        }
        if n == 0 {
            (1.0, 0.0)
        } else {
            (b, n as f64 * (x * b - a) / (x * x - 1.0))
        }
    };
    (1..=n)
        .map(|i| {
            let mut x = (std::f64::consts::PI * (i as f64 - 0.25) / (n as f64 + 0.5)).cos();
            for _ in 0..100 {
                let (v, d) = p(x);
                let dx = v / d;
                x -= dx;
                if dx.abs() < 1e-15 {
                    break;
                }
            }
            x.asin().to_degrees()
        })
        .collect()
}

/// (basic angle, subdivisions, step in microdegrees at which the unit they make can express angles)
pub const BASIC: [(u32, u32, i32); 13] = [
    (0, u32::MAX, 1),
    (0, 0, 1),
    (u32::MAX, u32::MAX, 1),
    (0, 1000, 1),
    (1, 1_000_000, 1),
    (1, 1000, 1000),
    (1, 100, 10_000),
    (1, 3000, 1000),
    (2, 1_000_000, 2),
    (360, 36_000, 10_000),
    (90, 90_000, 1000),
    (10, 10_000_000, 1),
    (1, 2_000_000, 1),
];

/// Whether the library is able to interpret the grid.
pub fn grid_known(g: &GridSpec) -> bool {
    g.tmpl != 101 && !g.list
}

/// The parts of the grid definition that do not matter to regular grids.
#[derive(Clone, Debug, Default)]
pub struct GridRest {
    pub shape: u8,
    /// scale factor and scaled value of the radius, the major and the minor axis
    pub axes: [(u8, u32); 3],
    pub lad: i32,
    pub lov: i32,
    pub dx: u32,
    pub dy: u32,
    pub centre: u8,
    pub latin: [i32; 2],
    pub flags: u8,
}

pub fn grid_rest(g: &GridSpec) -> GridRest {
    if g.gseed == 0 {
        return GridRest { shape: 6, lad: 60_000_000, lov: g.lon2, dx: 10_000_000, dy: 10_000_000, latin: [30_000_000, 60_000_000], flags: 0x30, ..Default::default() };
    }
    let mut r = Rng::new(g.gseed ^ 0x7265_7374);
    let mut axis = |near: u32| {
        let f = *r.pick(&[0u8, 0, 1, 1, 2, 3, 0x81, 0x83, 255]);
        let v = match r.below(3) {
            0 => near,
            1 => near.saturating_mul(10),
            _ => r.u64() as u32,
        };
        (f, if f == 255 { u32::MAX } else { v })
    };
    let axes = [axis(6_371_200), axis(6_378_137), axis(6_356_752)];
    GridRest {
        shape: if r.chance(1, 6) { r.below(256) as u8 } else { r.below(9) as u8 },
        axes,
        lad: r.range(-90_000_000, 90_000_000) as i32,
        lov: r.range(-180_000_000, 360_000_000) as i32,
        dx: r.u64() as u32,
        dy: r.below(30_000_000) as u32,
        centre: (r.below(4) << 6) as u8,
        latin: [r.range(-90_000_000, 90_000_000) as i32, r.range(-90_000_000, 90_000_000) as i32],
        flags: r.below(256) as u8,
    }
}

/// The major and minor radii of the earth in metres.
pub fn earth_radii(e: &GridRest) -> Option<(f64, f64)> {
    let len = |(f, v): (u8, u32)| {
        let f = if f & 0x80 == 0 { i32::from(f) } else { -i32::from(f & 0x7f) };
        f64::from(v) * 10f64.powi(-f)
    };
    Some(match e.shape {
        0 => (6_367_470.0, 6_367_470.0),
        1 => (len(e.axes[0]), len(e.axes[0])),
        2 => (6_378_160.0, 6_356_775.0),
        3 => (1e3 * len(e.axes[1]), 1e3 * len(e.axes[2])),
        4 => (6_378_137.0, 6_356_752.314),
        5 => (6_378_137.0, 6_356_752.314_2),
        6 => (6_371_229.0, 6_371_229.0),
        7 => (len(e.axes[1]), len(e.axes[2])),
        8 => (6_371_200.0, 6_371_200.0),
        _ => return None,
    })
}

/// (i, j) in the order of the data.
pub fn ij_model(g: &GridSpec) -> Option<Vec<(usize, usize)>> {
    if !grid_known(g) || g.scan & 0x0f != 0 {
        return None;
    }
    let (ni, nj) = (g.ni as usize, g.nj as usize);
    let by_i = g.scan & 0x20 == 0;
    let alt = g.scan & 0x10 != 0;
    let (outer, inner) = if by_i { (nj, ni) } else { (ni, nj) };
    let mut v = Vec::with_capacity(ni * nj);
    for o in 0..outer {
        for k in 0..inner {
            let m = if alt && o % 2 == 1 { inner - 1 - k } else { k };
            v.push(if by_i { (m, o) } else { (o, m) });
        }
    }
    Some(v)
}

/// (lat, lon) of every point in data order, for regular and Gaussian grids.
pub fn latlon_model(g: &GridSpec) -> Option<Vec<(f64, f64)>> {
    if g.tmpl != 0 && g.tmpl != 40 {
        return None;
    }
    let ij = ij_model(g)?;
    let (ni, nj) = (g.ni as usize, g.nj as usize);
    let lats: Vec<f64> = if g.tmpl == 40 {
        let (north, south) = (usize::from(g.more.0), usize::from(g.more.1));
        let mut l = gauss_lats(north + nj + south)[north..north + nj].to_vec();
        if g.scan & 0x40 != 0 {
            l.reverse();
        }
        l
    } else {
        (0..nj)
            .map(|j| {
                let f = if nj > 1 { j as f64 / (nj - 1) as f64 } else { 0.0 };
                (f64::from(g.lat1) + f * (f64::from(g.lat2) - f64::from(g.lat1))) / 1e6
            })
            .collect()
    };
    let span = f64::from(g.lon2) - f64::from(g.lon1);
    let span = if g.scan & 0x80 == 0 { span.rem_euclid(360e6) } else { -((-span).rem_euclid(360e6)) };
    let lons: Vec<f64> = (0..ni)
        .map(|i| {
            let f = if ni > 1 { i as f64 / (ni - 1) as f64 } else { 0.0 };
            (f64::from(g.lon1) + f * span) / 1e6
        })
        .collect();
    Some(ij.into_iter().map(|(i, j)| (lats[j], lons[i])).collect())
}

fn u16b(v: &mut Vec<u8>, x: u16) {
    v.extend_from_slice(&x.to_be_bytes());
}
fn u32b(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&x.to_be_bytes());
}

/// Number of parallels between a pole and the equator.
pub fn gauss_n(g: &GridSpec) -> u32 {
    (g.nj + u32::from(g.more.0) + u32::from(g.more.1)) / 2
}

fn grid_payload(g: &GridSpec, seed: u64) -> Vec<u8> {
    let mut v = vec![0u8];
    u32b(&mut v, g.ni * g.nj);
    v.extend_from_slice(&[0, 0]);
    u16b(&mut v, g.tmpl);
    if g.list {
        (v[5], v[6]) = (2, 1);
    }
    let rest = grid_rest(g);
    let mut earth = vec![rest.shape];
    for (f, x) in rest.axes {
        earth.push(f);
        u32b(&mut earth, x);
    }
    let (basic, subdiv, _) = BASIC[usize::from(g.basic) % BASIC.len()];
    // an angle in the unit of the grid
    let angle = |v: i32| {
        let raw = match (basic, subdiv) {
            (0 | u32::MAX, _) => i64::from(v),
            _ => i64::from(v) * i64::from(subdiv) / (i64::from(basic) * 1_000_000),
        };
        signmag(raw, 4)
    };
    match g.tmpl {
        0 | 40 => {
            v.extend(earth);
            u32b(&mut v, g.ni);
            u32b(&mut v, g.nj);
            u32b(&mut v, basic);
            u32b(&mut v, subdiv);
            v.extend(angle(g.lat1));
            v.extend(angle(g.lon1));
            v.push(rest.flags);
            v.extend(angle(g.lat2));
            v.extend(angle(g.lon2));
            u32b(&mut v, rest.dx);
            u32b(&mut v, if g.tmpl == 40 { gauss_n(g) } else { rest.dy });
            v.push(g.scan);
            if g.list {
                for _ in 0..g.nj {
                    u16b(&mut v, g.ni as u16);
                }
            }
        }
        20 | 30 => {
            v.extend(earth);
            u32b(&mut v, g.ni);
            u32b(&mut v, g.nj);
            v.extend(signmag(g.lat1.into(), 4));
            v.extend(signmag(g.lon1.into(), 4));
            v.push(rest.flags);
            v.extend(signmag(rest.lad.into(), 4));
            v.extend(signmag(rest.lov.into(), 4));
            u32b(&mut v, rest.dx);
            u32b(&mut v, rest.dy);
            v.push(rest.centre);
            v.push(g.scan);
            if g.tmpl == 30 {
                v.extend(signmag(rest.latin[0].into(), 4));
                v.extend(signmag(rest.latin[1].into(), 4));
                v.extend(signmag(-90_000_000, 4));
                v.extend(signmag(0, 4));
            }
        }
        _ => {
            let mut r = Rng::new(seed ^ 101);
            for _ in 0..21 {
                v.push(r.u64() as u8);
            }
        }
    }
    v
}

/// The product definition templates the library says it knows.
pub const KNOWN_PROD_TMPL: [u16; 71] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 20, 30, 31, 32, 33, 34, 35, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 51, 53, 54, 55,
    56, 57, 58, 59, 60, 61, 62, 63, 67, 68, 70, 71, 72, 73, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 91, 254, 1000, 1001, 1002,
    1100, 1101,
];

/// Whether the template is known, and where in it (octets from its begin) the generating process, the unit of the
/// forecast time and the first fixed surface are, built up from what precedes them in the template.
fn prod_layout(tmpl: u16) -> (bool, Option<usize>, Option<usize>, Option<usize>) {
    // what stands between the parameter number and the generating process
    let (aerosol, size, wave, source) = (2, 11, 11, 1);
    let before = match tmpl {
        0..=15 | 20 | 30..=35 | 51 | 60 | 61 | 86..=88 | 91 | 254 | 1000..=1002 | 1100 | 1101 => 0,
        // constituent
        40..=43 => 2,
        44..=47 | 85 => aerosol + size,
        48 | 49 => aerosol + size + wave,
        // tiles: class, pairs, tiles used, index, attributes used, attribute
        55 | 56 | 59 | 62 | 63 => 6,
        // input process, originating centre, post-processing
        70..=73 => 2 + 2 + 1,
        76..=79 => 2 + source,
        80 | 81 => aerosol + source + size + wave,
        82..=84 => aerosol + source + size,
        // partitions and distribution functions of variable length: not read
        53 | 54 | 57 | 58 | 67 | 68 => return (true, None, None, None),
        _ => return (false, None, None, None),
    };
    let gp = 2 + before;
    // process identifiers (2), cut-off (3) and, for the forecast, unit and time
    let ft = match tmpl {
        20 | 30 | 31 | 35 | 254 => None,
        88 => Some(26),
        _ => Some(gp + 6),
    };
    let fs = match tmpl {
        20 | 30..=35 | 254 | 1000..=1002 => None,
        88 => Some(gp + 3),
        // the forecast time of this one has two octets
        44 => Some(gp + 6 + 3),
        _ => Some(gp + 6 + 5),
    };
    (true, Some(gp), ft, fs)
}

fn prod_payload(p: &ProdSpec) -> (Vec<u8>, ProdModel) {
    let mut r = Rng::new(p.seed ^ 0x7072_6f64);
    let mut v = vec![0, 0];
    u16b(&mut v, p.tmpl);
    for _ in 0..64 + usize::from(p.extra) {
        v.push(r.u64() as u8);
    }
    // vertical coordinates follow the template
    if p.extra % 4 == 1 {
        let n = 1 + p.seed % *[3u64, 80, 300].get((p.seed >> 20) as usize % 3).unwrap();
        v[0] = (n >> 8) as u8;
        v[1] = n as u8;
        for _ in 0..4 * n {
            v.push(r.u64() as u8);
        }
    }
    if r.chance(1, 2) {
        // plausible contents
        v[4] = r.below(8) as u8;
        v[5] = r.below(12) as u8;
        if r.chance(1, 16) {
            v[4] = 3;
            v[5] = *r.pick(&[0u8, 1, 5, 5, 2]);
        }
    }
    let (known, gp, ft, fs) = prod_layout(p.tmpl);
    if let Some(i) = ft {
        if r.chance(2, 3) {
            v[4 + i] = *r.pick(&[0u8, 1, 2, 10, 11, 12, 13, 255]);
            v[4 + i + 1] = 0;
            v[4 + i + 2] = 0;
        }
    }
    if let Some(i) = fs {
        if r.chance(2, 3) {
            for k in 0..2 {
                let b = 4 + i + 6 * k;
                v[b] = *r.pick(&[1u8, 100, 103, 255]);
                v[b + 1] = *r.pick(&[0u8, 0x81, 2, 0xff]);
                let x: u32 = *r.pick(&[0u32, 50000, 0x8000_0005, 0xffff_ffff]);
                v[b + 2..b + 6].copy_from_slice(&x.to_be_bytes());
            }
        }
    }
    let sm8 = |b: u8| -> i8 {
        let m = (b & 0x7f) as i8;
        if b & 0x80 != 0 {
            -m
        } else {
            m
        }
    };
    let sm32 = |s: &[u8]| -> i32 {
        let x = u32::from_be_bytes([s[0], s[1], s[2], s[3]]);
        let m = (x & 0x7fff_ffff) as i32;
        if x & 0x8000_0000 != 0 {
            -m
        } else {
            m
        }
    };
    let m = ProdModel {
        tmpl: p.tmpl,
        cat: known.then(|| v[4]),
        num: known.then(|| v[5]),
        genproc: gp.map(|i| v[4 + i]),
        forecast: ft.map(|i| match p.tmpl {
            44 => (v[4 + i], u16::from_be_bytes([v[5 + i], v[6 + i]]).into()),
            _ => (v[4 + i], u32::from_be_bytes([v[5 + i], v[6 + i], v[7 + i], v[8 + i]])),
        }),
        unsure: u8::from(matches!(p.tmpl, 47 | 83)) | u8::from(p.tmpl == 1002) << 1,
        surfaces: fs.map(|i| {
            let f = |b: usize| (v[b], sm8(v[b + 1]), sm32(&v[b + 2..b + 6]));
            [f(4 + i), f(10 + i)]
        }),
    };
    (v, m)
}

fn gen_field(f: &FieldSpec, m: usize, bits: usize) -> Vec<u64> {
    let bits = bits.min(32);
    let max: u64 = if bits == 0 { 0 } else { (1u64 << bits) - 1 };
    let mut r = Rng::new(f.seed ^ 0x6669_656c);
    let pw = 1 + r.below(20);
    let mut walk = r.below(max + 1);
    (0..m)
        .map(|i| match f.kind % 6 {
            0 => r.below(max + 1),
            1 => {
                let p = (i as u64 / pw) % 7;
                p * (max / 7)
            }
            2 => max,
            3 => {
                let step = (max / 50).max(1);
                let up = r.chance(1, 2);
                walk = if up { walk.saturating_add(r.below(step + 1)).min(max) } else { walk.saturating_sub(r.below(step + 1)) };
                walk
            }
            4 => {
                let s = ((i as f64 * 0.13).sin() + 1.0) / 2.0;
                ((s * max as f64) as u64).min(max)
            }
            _ => {
                if r.chance(1, 9) {
                    max
                } else if r.chance(1, 5) {
                    r.below(max + 1)
                } else {
                    0
                }
            }
        })
        .collect()
}

struct Enc5 {
    tmpl: u16,
    s5: Vec<u8>,
    s7: Vec<u8>,
    vals: Option<Vec<Option<(f64, f64)>>>,
    nbit: u8,
}

fn refval(p: &PackSpec) -> f32 {
    let rm = p.rm.clamp(-(1 << 23), 1 << 23);
    if rm == 0 && p.gseed % 8 == 0 {
        return -0.0;
    }
    let rs = p.rs.clamp(-20, 20);
    rm as f32 * (2f32).powi(rs.into())
}

fn scaled(p: &PackSpec, e: i16, d: i16, x: f64) -> (f64, f64) {
    let r = f64::from(refval(p));
    let t = x * (2f64).powi(e.into());
    let f = (10f64).powi(-i32::from(d));
    ((r + t) * f, 4e-6 * (r.abs() + t.abs()) * f + 1e-36)
}

fn sect5_head(p: &PackSpec, e: i16, d: i16, nbit: u8, otype: u8) -> Vec<u8> {
    let mut v = refval(p).to_be_bytes().to_vec();
    v.extend(signmag(e.into(), 2));
    v.extend(signmag(d.into(), 2));
    v.push(nbit);
    v.push(otype);
    v
}

/// The size of an image that lacks some of the grid.
fn smaller(sub: &SubSpec, w: usize, h: usize) -> (usize, usize) {
    let n = usize::from(sub.img);
    match (w, h) {
        (w, 1) => (w.saturating_sub(n).max(w.min(1)), 1),
        (w, h) => (w, h.saturating_sub(n).max(h.min(1))),
    }
}

fn encode_data(sub: &SubSpec, grid: &GridSpec, npts: usize, m: usize, bitmap: bool) -> Enc5 {
    let p = &sub.pack;
    let e = p.e.clamp(-60, 40);
    let d = p.d.clamp(-12, 12);
    let otype = if p.bad == 1 { 1 } else { 0 };
    let mut tmpl = p.tmpl;
    if m == 0 {
        tmpl = 0;
    }
    let amp = usize::from(sub.field.amp);
    let bad = p.bad != 0;
    let _ = npts;
    match tmpl {
        0 => {
            let nbit = if m == 0 { 0 } else { p.nbit.min(32) };
            let xs = gen_field(&sub.field, m, amp.min(nbit.into()));
            let mut b = Bits::default();
            for &x in &xs {
                b.put(x, nbit.into());
            }
            let vals = xs
                .iter()
                .map(|&x| if nbit == 0 { Some(const_val(p, d)) } else { Some(scaled(p, e, d, x as f64)) })
                .collect();
            Enc5 {
                tmpl,
                s5: sect5_head(p, e, d, nbit, otype),
                s7: b.v,
                vals: (p.bad != 1).then_some(vals),
                nbit,
            }
        }
        2 | 3 => encode_complex(sub, tmpl, e, d, m, amp, otype),
        40 => {
            // openjpeg works with 6 fractional bits in 32-bit integers: deeper images are not lossless in it
            let nbit = p.nbit.min(20);
            let xs = gen_field(&sub.field, m, amp.min(nbit.into()));
            let (w, h) = if bitmap { (m, 1) } else { (grid.ni as usize, grid.nj as usize) };
            let (w, h) = smaller(sub, w, h);
            let s7 = if nbit == 0 { vec![] } else { crate::j2k::encode(&xs[..w * h], w, h, nbit) };
            let mut s5 = sect5_head(p, e, d, nbit, otype);
            s5.extend_from_slice(&[0, 255]);
            let vals = xs
                .iter()
                .map(|&x| if nbit == 0 { Some(const_val(p, d)) } else { Some(scaled(p, e, d, x as f64)) })
                .collect();
            Enc5 { tmpl, s5, s7, vals: (p.bad != 1).then_some(vals), nbit }
        }
        41 => {
            let (w, h) = if bitmap { (m, 1) } else { (grid.ni as usize, grid.nj as usize) };
            let mut nbit: u8 = match p.nbit {
                0 => 0,
                1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                9..=16 => 16,
                17..=24 => 24,
                _ => 32,
            };
            if nbit > 0 && nbit < 8 && (w * usize::from(nbit)) % 8 != 0 && h > 1 {
                nbit = 8;
            }
            let xs = gen_field(&sub.field, m, amp.min(nbit.into()));
            let mut b = Bits::default();
            let (w, h) = smaller(sub, w, h);
            let depth = if sub.deep && nbit == 8 { 16 } else { nbit };
            for row in xs[..w * h].chunks(w.max(1)) {
                for &x in row {
                    b.put(x, depth.into());
                }
                b.align();
            }
            let s7 = if nbit == 0 {
                vec![]
            } else {
                let mut out = Vec::new();
                let mut enc = png::Encoder::new(&mut out, w as u32, h as u32);
                let (c, dp) = match depth {
                    1 => (png::ColorType::Grayscale, png::BitDepth::One),
                    2 => (png::ColorType::Grayscale, png::BitDepth::Two),
                    4 => (png::ColorType::Grayscale, png::BitDepth::Four),
                    8 => (png::ColorType::Grayscale, png::BitDepth::Eight),
                    16 => (png::ColorType::Grayscale, png::BitDepth::Sixteen),
                    24 => (png::ColorType::Rgb, png::BitDepth::Eight),
                    _ => (png::ColorType::Rgba, png::BitDepth::Eight),
                };
                enc.set_color(c);
                enc.set_depth(dp);
                let mut wr = enc.write_header().expect("png header");
                wr.write_image_data(&b.v).expect("png data");
                drop(wr);
                out
            };
            let vals = xs
                .iter()
                .map(|&x| if nbit == 0 { Some(const_val(p, d)) } else { Some(scaled(p, e, d, x as f64)) })
                .collect();
            Enc5 { tmpl, s5: sect5_head(p, e, d, nbit, otype), s7, vals: (p.bad != 1).then_some(vals), nbit }
        }
        200 => encode_rle(sub, m, amp),
        _ => {
            // unsupported template: contents do not matter
            let mut r = Rng::new(p.gseed);
            let n5 = r.below(40) as usize;
            let n7 = r.below(200) as usize;
            let mut s5 = sect5_head(p, e, d, p.nbit.min(32), 0);
            s5.extend((0..n5).map(|_| r.u64() as u8));
            let s7 = (0..n7).map(|_| r.u64() as u8).collect();
            let _ = bad;
            Enc5 { tmpl, s5, s7, vals: None, nbit: p.nbit.min(32) }
        }
    }
}

fn const_val(p: &PackSpec, d: i16) -> (f64, f64) {
    let f = (10f64).powi(-i32::from(d));
    let r = f64::from(refval(p));
    (r * f, 4e-6 * r.abs() * f + 1e-36)
}

fn encode_rle(sub: &SubSpec, m: usize, amp: usize) -> Enc5 {
    let p = &sub.pack;
    let mut r = Rng::new(p.gseed ^ 0x726c65);
    let nbit = p.nbit.clamp(2, 16);
    {
        // levels 1..=maxv; run digits use the codes maxv+1 .. 2^nbit-1, at least 2 of them
        let cap = (1u64 << nbit) - 3;
        let want = (1u64 << amp.min(9)).max(1) + r.below(3);
        // no level at all: every point is missing
        let maxv = if p.gseed % 24 == 0 { 0 } else { want.min(cap) as u16 };
        let lngu = (1u64 << nbit) - 1 - u64::from(maxv);
        let nlev = maxv.saturating_add(r.below(3) as u16);
        let dec = r.below(4) as u8;
        let mut levels: Vec<u16> = (0..nlev).map(|_| r.below(65536) as u16).collect();
        levels.sort_unstable();
        let bits = bits_for(u64::from(maxv)).max(1);
        let xs: Vec<u16> =
            gen_field(&sub.field, m, bits).iter().map(|&x| (x % (u64::from(maxv) + 1)) as u16).collect();
        let mut b = Bits::default();
        let mut i = 0;
        while i < m {
            let mut j = i + 1;
            while j < m && xs[j] == xs[i] {
                j += 1;
            }
            // a run may also be split into several literal + run parts
            let mut run = j - i;
            if run > 2 && r.chance(1, 8) {
                run = 1 + r.us(run - 1);
            }
            b.put(u64::from(xs[i]), nbit.into());
            let mut rest = (run - 1) as u64;
            while rest > 0 {
                b.put(u64::from(maxv) + 1 + rest % lngu, nbit.into());
                rest /= lngu;
            }
            i += run;
        }
        let mut s5 = vec![nbit];
        u16b(&mut s5, maxv);
        u16b(&mut s5, nlev);
        s5.push(dec);
        for &l in &levels {
            u16b(&mut s5, l);
        }
        let f = (10f64).powi(-i32::from(dec));
        let vals = xs
            .iter()
            .map(|&x| {
                if x == 0 {
                    None
                } else {
                    let v = f64::from(levels[usize::from(x) - 1]) * f;
                    Some((v, 4e-6 * v.abs() + 1e-36))
                }
            })
            .collect();
        Enc5 { tmpl: 200, s5, s7: b.v, vals: Some(vals), nbit }
    }
}

fn encode_complex(sub: &SubSpec, tmpl: u16, e: i16, d: i16, m: usize, amp: usize, otype: u8) -> Enc5 {
    let p = &sub.pack;
    let mut r = Rng::new(p.gseed ^ 0x636d_706c);
    let mv = p.mv % 3;
    // codes of up to 31 bits: differences of the second order take two bits more than the values, and one for the sign
    let xs = gen_field(&sub.field, m, amp.min(if tmpl == 3 { 27 } else { 30 }));
    // which points are missing: 0 normal, 1, 2
    let miss_mode = r.below(4);
    let mut block = 0u8;
    let kinds: Vec<u8> = (0..m)
        .map(|_| {
            if mv == 0 {
                return 0;
            }
            match miss_mode {
                0 => 0,
                1 => {
                    if r.chance(1, 6) {
                        block = if r.chance(1, 2) { 0 } else { 1 + r.below(mv.into()) as u8 };
                    }
                    block
                }
                2 => {
                    if r.chance(1, 4) {
                        1 + r.below(mv.into()) as u8
                    } else {
                        0
                    }
                }
                _ => {
                    if r.chance(1, 30) {
                        1
                    } else {
                        0
                    }
                }
            }
        })
        .collect();
    let order = if tmpl == 3 { 1 + (p.order.max(1) - 1) % 2 } else { 0 };
    // spatial differencing over the normal points
    let mut desc: Vec<i64> = Vec::new();
    let mut gmin = 0i64;
    let mut ys: Vec<i64> = xs.iter().map(|&x| x as i64).collect();
    if order > 0 {
        let normals: Vec<usize> = (0..m).filter(|&i| kinds[i] == 0).collect();
        let orig: Vec<i64> = normals.iter().map(|&i| xs[i] as i64).collect();
        let mut diffs = vec![0i64; orig.len()];
        for k in 0..orig.len() {
            if k < order as usize {
                desc.push(orig[k]);
            } else if order == 1 {
                diffs[k] = orig[k] - orig[k - 1];
            } else {
                diffs[k] = orig[k] - 2 * orig[k - 1] + orig[k - 2];
            }
        }
        while desc.len() < order as usize {
            desc.push(7);
        }
        let k0 = (order as usize).min(diffs.len());
        gmin = diffs[k0..].iter().copied().min().unwrap_or(0);
        for (k, &i) in normals.iter().enumerate() {
            ys[i] = if k < k0 { 0 } else { diffs[k] - gmin };
        }
    }
    // group lengths
    let mut len_ref = 1 + r.below(*r.clone().pick(&[1u64, 4, 30])) as u32;
    let _ = r.u64();
    let mut len_inc = 1 + r.below(3) as u8;
    let mut maxcode = *r.pick(&[0u64, 1, 3, 15, 40]);
    let mut lens: Vec<(usize, u64)> = Vec::new();
    let mut left = m;
    let mut single = r.chance(1, 10);
    if p.shape > 0 {
        single = p.shape % 5 == 3;
        (len_ref, len_inc, maxcode) = match p.shape % 5 {
            1 => (65_500 + r.below(80) as u32, len_inc, maxcode),
            2 => (1, len_inc, 0),
            4 => (len_ref, 1 + r.below(255) as u8, *r.pick(&[300u64, 4000, 70_000])),
            _ => (len_ref, len_inc, maxcode),
        };
    }
    loop {
        let c = r.below(maxcode + 1);
        let l = len_ref as usize + usize::from(len_inc) * c as usize;
        if single || l >= left {
            lens.push((left, 0));
            break;
        }
        lens.push((l, c));
        left -= l;
    }
    let ng = lens.len();
    let extra_w = r.below(2) as usize;
    // group references and widths
    let mut refs = vec![0u64; ng];
    let mut widths = vec![0usize; ng];
    let mut special = vec![0u8; ng]; // all-missing group of width 0
    let mut pos = 0;
    let mut maxref = 0u64;
    for g in 0..ng {
        let rng_ = pos..pos + lens[g].0;
        pos += lens[g].0;
        let norm: Vec<i64> = rng_.clone().filter(|&i| kinds[i] == 0).map(|i| ys[i]).collect();
        let lo = norm.iter().copied().min().unwrap_or(0);
        let hi = norm.iter().copied().max().unwrap_or(0);
        let anymiss = norm.len() < lens[g].0;
        let k0 = kinds[rng_.start];
        if norm.is_empty() && rng_.clone().all(|i| kinds[i] == k0) && r.chance(1, 2) {
            special[g] = k0;
        } else if !anymiss && lo == hi && r.chance(4, 5) {
            refs[g] = lo as u64;
        } else {
            let lo = if r.chance(1, 4) { lo - (r.below(1 + lo.min(3) as u64) as i64) } else { lo };
            refs[g] = lo as u64;
            let need = (hi - lo) as u64 + u64::from(mv);
            // codes 2^w-1 (and 2^w-2) are markers
            widths[g] = (bits_for(need).max(if anymiss && mv == 2 { 2 } else { 1 }) + extra_w).min(31);
        }
        maxref = maxref.max(refs[g]);
    }
    let need_ref = maxref + u64::from(mv);
    let nbit = if need_ref == 0 && mv == 0 { if r.chance(1, 2) { 0 } else { 1 } } else { bits_for(need_ref).max(if mv == 2 { 2 } else { 1 }) };
    let allones = if nbit == 0 { 0 } else { (1u64 << nbit) - 1 };
    for g in 0..ng {
        match special[g] {
            1 => refs[g] = allones,
            2 => refs[g] = allones - 1,
            _ => {}
        }
    }
    let wref = widths.iter().copied().min().unwrap_or(0);
    let wmax = widths.iter().copied().max().unwrap_or(0);
    let wnbit = bits_for((wmax - wref) as u64);
    let lnbit = bits_for(lens.iter().map(|l| l.1).max().unwrap_or(0));
    let mut octets = usize::from(p.octets.clamp(1, 4));
    if order > 0 {
        let need = desc.iter().map(|v| bits_for(v.unsigned_abs())).max().unwrap_or(0).max(bits_for(gmin.unsigned_abs())) + 1;
        octets = octets.max(need.div_ceil(8)).min(4);
    }
    let mut b = Bits::default();
    for g in &refs {
        b.put(*g, nbit);
    }
    b.align();
    for w in &widths {
        b.put((w - wref) as u64, wnbit);
    }
    b.align();
    for l in &lens {
        b.put(l.1, lnbit);
    }
    b.align();
    let mut pos = 0;
    for g in 0..ng {
        for i in pos..pos + lens[g].0 {
            if widths[g] == 0 {
                continue;
            }
            let ones = (1u64 << widths[g]) - 1;
            let code = match kinds[i] {
                0 => (ys[i] - refs[g] as i64) as u64,
                1 => ones,
                _ => ones - 1,
            };
            b.put(code, widths[g]);
        }
        pos += lens[g].0;
    }
    let mut s7 = Vec::new();
    for v in &desc {
        s7.extend(signmag(*v, octets));
    }
    if order > 0 {
        s7.extend(signmag(gmin, octets));
    }
    s7.extend(b.v);
    let mut s5 = sect5_head(p, e, d, nbit as u8, otype);
    let mut split = 1u8;
    let mut mvq = mv;
    let mut oct = octets as u8;
    let mut ord = order;
    match p.bad {
        2 => split = 2,
        3 => mvq = 3,
        4 if order > 0 => oct = if p.gseed & 1 == 0 { 0 } else { 5 },
        5 if order > 0 => ord = if p.gseed & 1 == 0 { 3 } else { 255 },
        _ => {}
    }
    s5.push(split);
    s5.push(mvq);
    u32b(&mut s5, 0x7f7f_ffff);
    u32b(&mut s5, 0x7f7f_fffe);
    u32b(&mut s5, ng as u32);
    s5.push(wref as u8);
    s5.push(wnbit as u8);
    u32b(&mut s5, len_ref);
    s5.push(len_inc);
    u32b(&mut s5, lens[ng - 1].0 as u32);
    s5.push(lnbit as u8);
    if order > 0 {
        s5.push(ord);
        s5.push(oct);
    }
    let refused = matches!(p.bad, 1..=3) || (matches!(p.bad, 4 | 5) && order > 0);
    let vals = (0..m).map(|i| if kinds[i] == 0 { Some(scaled_diff(p, e, d, xs[i] as f64)) } else { None }).collect();
    Enc5 { tmpl, s5, s7, vals: (!refused).then_some(vals), nbit: nbit as u8 }
}

fn scaled_diff(p: &PackSpec, e: i16, d: i16, x: f64) -> (f64, f64) {
    scaled(p, e, d, x)
}

pub fn bitmap_bits(b: &BmpSpec, npts: usize) -> Vec<bool> {
    let mut r = Rng::new(b.seed ^ 0x626d_70);
    let k = 1 + r.us(9);
    let cut = r.us(npts + 1);
    (0..npts)
        .map(|i| match b.pat % 7 {
            0 => r.chance(1, 2),
            1 => true,
            2 => false,
            3 => i % k == 0,
            4 => i < cut,
            5 => i >= cut,
            _ => r.chance(9, 10),
        })
        .collect()
}

fn id_payload(ids: u64, s1x: u8) -> (Vec<u8>, IdModel) {
    let mut r = Rng::new(ids ^ 0x6964);
    let centre = *r.pick(&[7u16, 34, 78, 98, 255, 65535, 1234]);
    let subcentre = r.below(65536) as u16;
    let mtv = r.below(32) as u8;
    let ltv = r.below(3) as u8;
    let rts = r.below(5) as u8;
    let mut date = (
        *r.clone().pick(&[1900u16, 1996, 2000, 2023, 2024]) + r.below(200) as u16,
        1 + r.below(12) as u8,
        1 + r.below(28) as u8,
        r.below(24) as u8,
        r.below(60) as u8,
        r.below(60) as u8,
    );
    match r.below(40) {
        0 => date.1 = *r.pick(&[0u8, 13, 255]),
        1 => date.2 = *r.pick(&[0u8, 32, 255]),
        2 => date.3 = *r.pick(&[24u8, 25, 255]),
        3 => date.4 = *r.pick(&[60u8, 61, 255]),
        4 => date.5 = *r.pick(&[60u8, 61, 255]),
        5 => date.0 = *r.pick(&[0u16, 1, 9999, 65_535]),
        6..=9 => date.2 = 29 + r.below(3) as u8,
        10 => (date.0, date.1, date.2) = (*r.pick(&[1900u16, 2000, 2023, 2024]), 2, 29),
        _ => {}
    }
    let leap = date.0 % 4 == 0 && (date.0 % 100 != 0 || date.0 % 400 == 0);
    let days = match date.1 {
        2 => 28 + u8::from(leap),
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    };
    let ok = matches!(date.1, 1..=12) && (1..=days).contains(&date.2) && date.3 < 24 && date.4 < 60 && date.5 < 60;
    let status = r.below(12) as u8;
    let dtype = r.below(10) as u8;
    let mut v = Vec::new();
    u16b(&mut v, centre);
    u16b(&mut v, subcentre);
    v.extend_from_slice(&[mtv, ltv, rts]);
    u16b(&mut v, date.0);
    v.extend_from_slice(&[date.1, date.2, date.3, date.4, date.5, status, dtype]);
    for _ in 0..s1x {
        v.push(r.u64() as u8);
    }
    (v, IdModel { centre, subcentre, mtv, ltv, rts, date, date_ok: ok, status, dtype })
}

pub fn build(f: &FileSpec) -> Built {
    let mut b = Built::default();
    b.start = f.start.min(20_000) as usize;
    b.bytes = junk(1, b.start, 1);
    // a header in the skipped part must not matter: the reader starts behind it
    if b.start >= 40 {
        b.bytes[4..8].copy_from_slice(b"GRIB");
    }
    let times = |n: u32| n.clamp(1, 90_000) as usize;
    for (mi, m) in f.msgs.iter().flat_map(|m| std::iter::repeat(m).take(times(m.times))).take(100_000).enumerate() {
        if b.bytes.len() > 96 << 20 {
            break;
        }
        let jl = m.junk.min(3 << 20) as usize;
        let j = junk(m.junk_kind, jl, mix(m.ids ^ mi as u64));
        b.bytes.extend(j);
        let off = b.bytes.len();
        let sect0 = b.sects.len();
        let sub0 = b.subs.len();
        let rsv = mix(m.ids);
        b.bytes.extend_from_slice(b"GRIB");
        b.bytes.extend_from_slice(&[(rsv >> 8) as u8, (rsv >> 16) as u8, m.disc, 2]);
        b.bytes.extend_from_slice(&[0; 8]);
        b.sects.push(Sect { num: 0, off, size: 16 });
        let push = |b: &mut Built, num: u8, payload: &[u8]| -> usize {
            let off = b.bytes.len();
            let size = payload.len() + 5;
            u32b(&mut b.bytes, size as u32);
            b.bytes.push(num);
            b.bytes.extend_from_slice(payload);
            b.sects.push(Sect { num, off, size });
            b.sects.len() - 1
        };
        let (idp, id) = id_payload(m.ids, m.s1x);
        let s1 = push(&mut b, 1, &idp);
        let default_sub = [SubSpec { from: 3, ..Default::default() }];
        let subs: &[SubSpec] = if m.subs.is_empty() { &default_sub } else { &m.subs };
        let (mut s2, mut s3, mut grid) = (None, None, GridSpec::default());
        let first_sub = b.subs.len();
        for (si, s) in subs.iter().flat_map(|s| std::iter::repeat(s).take(times(s.times))).take(100_000).enumerate() {
            if si > 0 && b.bytes.len() > 96 << 20 {
                break;
            }
            let from = match s.from {
                2 => 2,
                3 => 3,
                _ if si == 0 => 3,
                _ => 4,
            };
            if from == 2 {
                let mut r = Rng::new(s.prod.seed ^ 2);
                let n = usize::from(s.local).min(300) + s.more_local.min(3 << 20) as usize;
                let p: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
                s2 = Some(push(&mut b, 2, &p));
            }
            if from <= 3 {
                grid = eff_grid(&s.grid);
                let p = grid_payload(&grid, s.prod.seed);
                s3 = Some(push(&mut b, 3, &p));
            }
            let npts = grid.ni as usize * grid.nj as usize;
            let (pp, prod) = prod_payload(&s.prod);
            let s4 = push(&mut b, 4, &pp);
            let bk = s.bmp.kind % 3;
            let bits = (bk == 1).then(|| bitmap_bits(&s.bmp, npts));
            let nenc = bits.as_ref().map_or(npts, |v| v.iter().filter(|x| **x).count());
            let enc = encode_data(s, &grid, npts, nenc, bk == 1);
            let mut p5 = Vec::new();
            u32b(&mut p5, nenc as u32);
            u16b(&mut p5, enc.tmpl);
            p5.extend_from_slice(&enc.s5);
            let s5 = push(&mut b, 5, &p5);
            let mut p6 = Vec::new();
            match bk {
                0 => p6.push(255),
                1 => {
                    p6.push(0);
                    let mut w = Bits::default();
                    for &x in bits.as_ref().unwrap() {
                        w.put(u64::from(x), 1);
                    }
                    if s.bmp.ones_pad {
                        let k = w.pad_bits();
                        w.put((1 << k) - 1, k);
                    }
                    p6.extend(w.v);
                }
                _ => p6.push(*[1u8, 254, 253].get((s.bmp.seed % 3) as usize).unwrap()),
            }
            let keep = p6.len() - (s.cut6 as usize).min(p6.len() - 1);
            p6.truncate(keep);
            let s6 = push(&mut b, 6, &p6);
            let mut p7 = enc.s7;
            let keep = p7.len() - (s.cut7 as usize).min(p7.len());
            p7.truncate(keep);
            if s.pad7 > 0 && matches!(enc.tmpl, 0 | 2 | 3) {
                p7.extend(std::iter::repeat(0xa5).take(s.pad7.into()));
            }
            let s7 = push(&mut b, 7, &p7);
            let expect = match enc.vals {
                None => Expect::Refused,
                Some(_) if bk == 2 => Expect::Refused,
                Some(v) => Expect::Values(match bits {
                    None => v,
                    Some(bits) => {
                        let mut it = v.into_iter();
                        bits.iter().map(|&x| if x { it.next().unwrap() } else { None }).collect()
                    }
                }),
            };
            b.subs.push(SubModel {
                idx: (mi, si),
                s: [Some(sect0), Some(s1), s2, s3, Some(s4), Some(s5), Some(s6), Some(s7), None],
                last_in_msg: false,
                grid: grid.clone(),
                prod,
                repr: enc.tmpl,
                bmp_kind: bk,
                npts,
                nenc,
                expect,
                disc: m.disc,
                nbit: enc.nbit,
            });
        }
        let s8off = b.bytes.len();
        b.bytes.extend_from_slice(b"7777");
        b.sects.push(Sect { num: 8, off: s8off, size: 4 });
        let s8 = b.sects.len() - 1;
        for s in b.subs[first_sub..].iter_mut() {
            s.s[8] = Some(s8);
        }
        b.subs.last_mut().unwrap().last_in_msg = true;
        let len = b.bytes.len() - off;
        b.bytes[off + 8..off + 16].copy_from_slice(&(len as u64).to_be_bytes());
        let nsects = b.sects.len() - sect0;
        let nsubs = b.subs.len() - sub0;
        b.msgs.push(MsgModel { off, len, sect0, nsects, sub0, nsubs, disc: m.disc, id });
    }
    let t = junk(f.tail_kind, f.tail.min(3 << 20) as usize, 77);
    b.bytes.extend(t);
    b
}
