//! Explicit, shrinkable description of a GRIB2 file. Every value is accepted by the encoder (it clamps), so
//! the minimiser may change any number, drop any element and still gets a well-formed file.

use crate::enc::KNOWN_PROD_TMPL;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct FileSpec {
    /// octets before the position at which the reader is handed over
    pub start: u32,
    pub msgs: Vec<MsgSpec>,
    pub tail: u32,
    pub tail_kind: u8,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct MsgSpec {
    /// foreign octets before the message
    pub junk: u32,
    pub junk_kind: u8,
    pub disc: u8,
    pub ids: u64,
    /// additional octets at the end of section 1
    pub s1x: u8,
    pub subs: Vec<SubSpec>,
    /// how often the message is repeated
    pub times: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct SubSpec {
    /// first section of the submessage: 2, 3 or 4 (4 only after the first)
    pub from: u8,
    pub local: u16,
    /// further octets of the local section
    pub more_local: u32,
    /// how often the submessage is repeated
    pub times: u32,
    pub grid: GridSpec,
    pub prod: ProdSpec,
    pub pack: PackSpec,
    pub bmp: BmpSpec,
    pub field: FieldSpec,
    /// octets removed from the end of the data section (lengths stay consistent)
    pub cut7: u32,
    /// octets removed from the end of the bitmap (lengths stay consistent)
    pub cut6: u32,
    /// spare octets appended to the data section
    pub pad7: u8,
    /// compressed images (40, 41): rows (of a single row: points) removed from the end of the image
    pub img: u8,
    /// PNG: eight-bit samples are stored in 16 bits
    pub deep: bool,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct GridSpec {
    pub tmpl: u16,
    pub ni: u32,
    pub nj: u32,
    pub lat1: i32,
    pub lat2: i32,
    pub lon1: i32,
    pub lon2: i32,
    pub scan: u8,
    /// which basic angle (one of `enc::BASIC`)
    pub basic: u8,
    /// Gaussian grids: parallels of the globe north and south of the grid
    pub more: (u8, u8),
    /// a list of numbers of points follows the template (not supported)
    pub list: bool,
    /// shape of the earth, increments, projection
    pub gseed: u64,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct ProdSpec {
    pub tmpl: u16,
    pub seed: u64,
    pub extra: u8,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct PackSpec {
    pub tmpl: u16,
    /// reference value rm * 2^rs
    pub rm: i32,
    pub rs: i8,
    pub e: i16,
    pub d: i16,
    pub nbit: u8,
    pub order: u8,
    pub octets: u8,
    pub mv: u8,
    pub gseed: u64,
    /// groups of complex packing: 0 any, 1 long ones, 2 of one point each, 3 all of the points in one, 4 lengths of many bits
    pub shape: u8,
    /// != 0: one parameter is set to a value the decoder must refuse
    pub bad: u8,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct BmpSpec {
    /// 0: none (indicator 255); 1: present (indicator 0); 2: a predefined or previous one (unsupported)
    pub kind: u8,
    pub pat: u8,
    pub seed: u64,
    pub ones_pad: bool,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct FieldSpec {
    pub seed: u64,
    pub kind: u8,
    pub amp: u8,
}

/// Swarm-style knobs of one generated file.
#[derive(Clone, Debug)]
pub struct Knobs {
    pub max_msgs: u64,
    pub max_subs: u64,
    pub max_side: u64,
    pub big_chance: u64,
    pub packs: Vec<u16>,
    pub grids: Vec<u16>,
    pub unsupported: bool,
    pub junk: bool,
    pub start: bool,
}

pub const ALL_PACKS: [u16; 6] = [0, 2, 3, 40, 41, 200];

impl Knobs {
    pub fn pick(r: &mut Rng) -> Knobs {
        let mut packs: Vec<u16> = ALL_PACKS.iter().copied().filter(|_| r.chance(1, 2)).collect();
        if packs.is_empty() {
            packs.push(*r.pick(&ALL_PACKS));
        }
        let mut grids: Vec<u16> = [0u16, 40, 20, 30, 101].iter().copied().filter(|_| r.chance(1, 2)).collect();
        if grids.is_empty() {
            grids.push(0);
        }
        Knobs {
            max_msgs: *r.pick(&[1, 1, 2, 3, 5]),
            max_subs: *r.pick(&[1, 1, 2, 3, 5]),
            max_side: *r.pick(&[4, 9, 17, 40]),
            big_chance: *r.pick(&[0, 0, 0, 1]),
            packs,
            grids,
            unsupported: r.chance(1, 4),
            junk: r.chance(1, 2),
            start: r.chance(1, 4),
        }
    }
}

fn gen_junk_len(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => r.below(4) as u32,
        1 => r.below(40) as u32,
        2 => 4096 - 40 + r.below(80) as u32,
        3 => 8150 + r.below(90) as u32,
        4 => r.below(600) as u32,
        _ => r.below(9000) as u32,
    }
}

pub fn gen_grid(r: &mut Rng, k: &Knobs) -> GridSpec {
    let tmpl = *r.pick(&k.grids);
    let big = r.below(12) < k.big_chance;
    let side = if big { 260 } else { k.max_side };
    let (mut ni, mut nj) = match r.below(8) {
        0 => (1, 1 + r.below(side) as u32),
        1 => (1 + r.below(side) as u32, 1),
        _ => (1 + r.below(side) as u32, 1 + r.below(side) as u32),
    };
    if tmpl == 40 {
        nj = 2 * (1 + r.below(if big { 40 } else { 12 }) as u32);
        ni = ni.min(64);
    }
    let (lo, hi) = if r.chance(1, 3) { (-179_999_999i64, 179_999_999) } else { (0, 359_999_999) };
    let coarse = r.chance(1, 2);
    let q = |v: i64| -> i32 { (if coarse { v / 250_000 * 250_000 } else { v }) as i32 };
    GridSpec {
        tmpl,
        ni,
        nj,
        lat1: q(r.range(-90_000_000, 90_000_000)),
        lat2: q(r.range(-90_000_000, 90_000_000)),
        lon1: q(r.range(lo, hi)),
        lon2: q(r.range(lo, hi)),
        scan: if r.chance(1, 16) { r.below(256) as u8 } else { (r.below(16) << 4) as u8 },
        basic: if r.chance(1, 4) { r.below(16) as u8 } else { 0 },
        more: if r.chance(1, 3) {
            let m = *r.pick(&[3u64, 40]);
            (r.below(m) as u8, r.below(m) as u8)
        } else {
            (0, 0)
        },
        list: r.chance(1, 40),
        gseed: if r.chance(1, 4) { 0 } else { r.u64() },
    }
}

pub fn gen_sub(r: &mut Rng, k: &Knobs, first: bool) -> SubSpec {
    let from = if first { *r.pick(&[3, 3, 2]) } else { *r.pick(&[2, 3, 4, 4]) };
    let tmpl = if k.unsupported && r.chance(1, 8) { *r.pick(&[1u16, 4, 50, 61, 42, 65535]) } else { *r.pick(&k.packs) };
    let nbit = match r.below(10) {
        0 => 0,
        1 => 8,
        2 => 16,
        3 => 1 + r.below(7) as u8,
        4 => 24 + r.below(9) as u8,
        _ => 1 + r.below(20) as u8,
    };
    let amp = match r.below(5) {
        0 => 0,
        1 => nbit,
        _ => r.below(31) as u8,
    };
    SubSpec {
        from,
        local: r.below(40) as u16,
        more_local: 0,
        times: 0,
        grid: gen_grid(r, k),
        prod: ProdSpec {
            tmpl: match r.below(8) {
                0 => 0,
                1 => *r.pick(&[16u16, 19, 50, 311, 65535]),
                2 => r.below(92) as u16,
                _ => *r.pick(&KNOWN_PROD_TMPL),
            },
            seed: r.u64(),
            extra: if r.chance(1, 6) { r.below(16) as u8 } else { 0 },
        },
        pack: PackSpec {
            tmpl,
            rm: match r.below(4) {
                0 => 0,
                1 => r.range(-30, 30) as i32,
                _ => r.range(-(1 << 20), 1 << 20) as i32,
            },
            rs: r.range(-8, 6) as i8,
            e: match r.below(4) {
                0 => 0,
                1 => r.range(-1, 1) as i16,
                _ if r.chance(1, 12) => r.range(-60, 40) as i16,
                _ => r.range(-14, 8) as i16,
            },
            d: match r.below(3) {
                0 => 0,
                _ if r.chance(1, 12) => r.range(-12, 12) as i16,
                _ => r.range(-4, 5) as i16,
            },
            nbit,
            order: 1 + r.below(2) as u8,
            octets: 1 + r.below(4) as u8,
            mv: *r.pick(&[0u8, 0, 1, 2]),
            gseed: r.u64(),
            shape: 0,
            bad: if k.unsupported && r.chance(1, 10) { 1 + r.below(5) as u8 } else { 0 },
        },
        bmp: BmpSpec {
            kind: if k.unsupported && r.chance(1, 12) { 2 } else { *r.pick(&[0u8, 0, 1]) },
            pat: r.below(7) as u8,
            seed: r.u64(),
            ones_pad: r.chance(1, 2),
        },
        field: FieldSpec { seed: r.u64(), kind: r.below(6) as u8, amp },
        cut7: 0,
        img: 0,
        deep: false,
        cut6: 0,
        pad7: 0,
    }
}

pub fn gen_msg(r: &mut Rng, k: &Knobs) -> MsgSpec {
    let nsubs = 1 + r.below(k.max_subs);
    MsgSpec {
        junk: if k.junk && r.chance(2, 3) { gen_junk_len(r) } else { 0 },
        junk_kind: r.below(4) as u8,
        disc: *r.pick(&[0u8, 0, 1, 2, 3, 4, 10, 20, 209, 255]),
        ids: r.u64(),
        s1x: if r.chance(1, 6) { r.below(8) as u8 } else { 0 },
        subs: (0..nsubs).map(|i| gen_sub(r, k, i == 0)).collect(),
        times: 0,
    }
}

pub fn gen_file(r: &mut Rng, k: &Knobs) -> FileSpec {
    let n = 1 + r.below(k.max_msgs);
    let mut f = FileSpec {
        start: if k.start { *r.pick(&[1u32, 3, 15, 16, 17, 100, 4095, 4096, 5000]) } else { 0 },
        msgs: (0..n).map(|_| gen_msg(r, k)).collect(),
        tail: if k.junk && r.chance(1, 3) { gen_junk_len(r) } else { 0 },
        tail_kind: r.below(4) as u8,
    };
    // place one header across a scan-window boundary now and then
    if k.junk && r.chance(1, 3) {
        if let Some(m) = f.msgs.first_mut() {
            m.junk = (4096 * (1 + r.below(2)) as i64 + r.range(-20, 20)) as u32;
        }
    }
    f
}

/// A handful of very small files: for crash-point and fault-position sweeps.
pub fn gen_small_file(r: &mut Rng) -> FileSpec {
    let mut k = Knobs::pick(r);
    k.max_side = 5;
    k.big_chance = 0;
    k.max_msgs = 1 + r.below(3);
    k.max_subs = 1 + r.below(3);
    k.junk = r.chance(1, 4);
    k.start = r.chance(1, 6);
    let mut f = gen_file(r, &k);
    for m in f.msgs.iter_mut() {
        if r.chance(3, 4) {
            m.junk %= 64;
        }
    }
    f.tail %= 64;
    f
}

/// Sizes at which a count, a length or a position no longer fits in 8 or 16 bits, or in a mebibyte.
fn past(r: &mut Rng, at: u32) -> u32 {
    match r.below(3) {
        0 => at - 3 + r.below(6) as u32,
        1 => at + r.below(u64::from(at) / 4) as u32,
        _ => at + 1,
    }
}

/// A large file: many messages, many submessages, long stretches of foreign octets, large sections, or a large field.
pub fn gen_scale(r: &mut Rng, what: u64) -> FileSpec {
    let mut k = Knobs::pick(r);
    k.max_side = 3;
    k.big_chance = 0;
    k.max_msgs = 2;
    k.max_subs = 2;
    k.unsupported = false;
    k.junk = false;
    let mut f = gen_file(r, &k);
    let n = f.msgs.len();
    let mi = r.us(n);
    match what % 6 {
        0 => {
            f.msgs[mi].times = if r.chance(1, 16) { past(r, 65_536) } else { past(r, *r.clone().pick(&[256, 256, 1024, 4096])) };
            if f.msgs[mi].times > 5000 {
                f.msgs[mi].subs.truncate(1);
                f.msgs[mi].subs[0].grid.nj = 1;
            }
        }
        1 => {
            let s = f.msgs[mi].subs.last_mut().unwrap();
            s.times = if r.chance(1, 16) { past(r, 65_536) } else { past(r, *r.clone().pick(&[256, 256, 1024, 4096])) };
            if s.times > 5000 {
                s.grid.nj = 1;
            }
        }
        2 => {
            let at = past(r, *r.clone().pick(&[65_536, 131_072, 1 << 20, 1 << 21]));
            if r.chance(1, 4) {
                f.tail = at;
            } else {
                f.msgs[mi].junk = at;
            }
        }
        3 => {
            let s = &mut f.msgs[mi].subs[0];
            s.from = 2;
            s.more_local = past(r, *r.clone().pick(&[65_536, 131_072, 1 << 20, 1 << 21]));
        }
        _ => {
            let side = past(r, 65_536);
            let s = &mut f.msgs[mi].subs[0];
            (s.grid.ni, s.grid.nj) = match r.below(4) {
                0 => (side, 1),
                1 => (1, side),
                2 => (side / 2, 3),
                _ => (300, 240),
            };
            if s.grid.tmpl == 40 {
                s.grid.tmpl = 0;
            }
            if r.chance(1, 8) {
                (s.grid.ni, s.grid.nj) = (700, 400);
                s.pack.tmpl = *r.pick(&[0u16, 2, 3]);
                s.pack.nbit = 32;
                s.field.kind = 0;
                s.field.amp = 32;
            }
            s.pack.shape = r.below(5) as u8;
            s.pack.mv = r.below(3) as u8;
            match r.below(4) {
                0 => s.field.kind = 2,
                1 => s.field.amp = 0,
                _ => {}
            }
            if r.chance(1, 4) {
                s.bmp.kind = 0;
            }
        }
    }
    f
}

/// The same with at most some 1300 messages or submessages.
pub fn gen_scale_moderate(r: &mut Rng, what: u64) -> FileSpec {
    let mut f = gen_scale(r, what);
    f.start = 0;
    for m in &mut f.msgs {
        m.times = m.times.min(1300);
        for s in &mut m.subs {
            s.times = s.times.min(1300);
        }
    }
    f
}
