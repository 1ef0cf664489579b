//! C08: arbitrary damage must not crash, hang or exhaust the reader.

use super::c03::{apply, Dmg};
use super::c04::gen_fault;
use super::open_stats;
use crate::alloc;
use crate::enc::*;
use crate::io::*;
use crate::rng::{mix, Rng};
use crate::runner::*;
use crate::spec::*;
use grib::{Grib2, Grib2SectionStream, Grib2SubmessageDecoder, Grib2SubmessageStream, SeekableGrib2Reader};
use serde::{Deserialize, Serialize};
use serde_json::Value;

/// Damage to the contents of one section; positions modulo what exists.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Poke {
    pub sect: u32,
    /// prefer sections of this number (0: any)
    pub num: u8,
    pub at: u32,
    pub width: u8,
    pub val: u64,
}

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc {
    file: FileSpec,
    delivery: Delivery,
    damage: Vec<Dmg>,
    pokes: Vec<Poke>,
    resize: Vec<Resize>,
    /// the checksums of PNG images are made to match the damaged contents
    crc: bool,
    cut: u32,
    faults: Vec<Fault>,
}

/// A section of another size than its template needs, all lengths consistent.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Resize {
    pub sect: u32,
    /// prefer sections of this number (0: any)
    pub num: u8,
    /// octets added or removed at the end of the section
    pub delta: i32,
    /// or, if not 0, its new size
    pub size: u32,
    pub fill: u8,
}

pub fn gen_resize(r: &mut Rng) -> Resize {
    Resize {
        sect: r.below(64) as u32,
        num: *r.pick(&[0u8, 1, 2, 3, 3, 4, 4, 4, 5, 5, 6, 7]),
        delta: if r.chance(2, 3) { -1 - r.below(*r.clone().pick(&[2u64, 12, 60])) as i32 } else { 1 + r.below(60) as i32 },
        size: if r.chance(1, 3) { 5 + r.below(90) as u32 } else { 0 },
        fill: *r.pick(&[0u8, 0xff, 0x80, 1]),
    }
}

/// Applies these to the bytes of `b` (whose contents, not layout, may have been altered).
pub fn resize(b: &Built, v: &mut Vec<u8>, rs: &[Resize]) {
    let mut at: std::collections::BTreeMap<usize, (usize, u8)> = Default::default();
    for q in rs {
        let cand: Vec<usize> = (0..b.sects.len()).filter(|i| !matches!(b.sects[*i].num, 0 | 8) && (q.num == 0 || q.num > 7 || b.sects[*i].num == q.num)).collect();
        if cand.is_empty() {
            continue;
        }
        let i = cand[q.sect as usize % cand.len()];
        let old = b.sects[i].size as i64;
        let new = if q.size > 0 { i64::from(q.size) } else { old + i64::from(q.delta) };
        at.insert(i, (new.clamp(5, old + 100_000) as usize, q.fill));
    }
    for (i, (new, fill)) in at.into_iter().rev() {
        let s = &b.sects[i];
        let end = s.off + s.size;
        let Some(m) = b.msgs.iter().find(|m| m.off <= s.off && s.off < m.off + m.len) else { continue };
        if end > v.len() || m.off + 16 > v.len() {
            continue;
        }
        if new < s.size {
            v.drain(s.off + new..end);
        } else {
            v.splice(end..end, std::iter::repeat(fill).take(new - s.size));
        }
        v[s.off..s.off + 4].copy_from_slice(&(new as u32).to_be_bytes());
        let p = m.off + 8;
        let total = u64::from_be_bytes(v[p..p + 8].try_into().unwrap()).wrapping_add(new as u64).wrapping_sub(s.size as u64);
        v[p..p + 8].copy_from_slice(&total.to_be_bytes());
    }
}

fn interesting(r: &mut Rng, width: u8) -> u64 {
    let bits = u32::from(width) * 8;
    let max = if bits >= 64 { u64::MAX } else { (1 << bits) - 1 };
    match r.below(14) {
        0 => 0,
        1 => 1,
        2 => max,
        3 => max - 1,
        4 => max / 2,
        5 => max / 2 + 1,
        6 => r.below(34),
        7 => 1 << r.below(bits.into()),
        8 => (1u64 << r.below(bits.into())) - 1,
        9 => 31 + r.below(3),
        10 => 63 + r.below(3),
        11 => 254 + r.below(4),
        _ => r.u64() & max,
    }
}

pub fn gen_poke(r: &mut Rng) -> Poke {
    let width = *r.pick(&[1u8, 1, 1, 2, 4, 4]);
    let num = *r.pick(&[0u8, 3, 3, 3, 4, 5, 5, 5, 5, 6, 7, 7]);
    Poke {
        sect: r.below(64) as u32,
        num,
        at: match r.below(3) {
            0 => r.below(100_000) as u32,
            1 => r.below(12) as u32,
            _ => r.below(72) as u32,
        },
        width,
        val: interesting(r, width),
    }
}

pub fn poke(b: &Built, v: &mut [u8], ps: &[Poke], first: usize) {
    for p in ps {
        let cand: Vec<_> = b.sects.iter().filter(|s| s.num != 0 && s.num != 8 && (p.num == 0 || p.num > 7 || s.num == p.num)).collect();
        let Some(s) = cand.get(p.sect as usize % cand.len().max(1)) else { continue };
        if s.size <= 5 + first {
            continue;
        }
        let w = usize::from(p.width.clamp(1, 8));
        let room = s.size - 5 - first;
        let at = s.off + 5 + first + p.at as usize % room;
        let w = w.min(s.off + s.size - at);
        if at + w <= v.len() {
            v[at..at + w].copy_from_slice(&p.val.to_be_bytes()[8 - w..]);
        }
    }
}

/// Lets the checksum of each chunk of a PNG image match its contents; returns how many did not.
fn fix_png(b: &Built, v: &mut [u8]) -> u64 {
    let crc32 = |d: &[u8]| {
        !d.iter().fold(u32::MAX, |c, x| {
            let c = c ^ u32::from(*x);
            (0..8).fold(c, |c, _| if c & 1 != 0 { 0xedb8_8320 ^ c >> 1 } else { c >> 1 })
        })
    };
    let mut n = 0;
    for s in b.sects.iter().filter(|s| s.num == 7 && s.size > 13) {
        let Some(p) = v.get_mut(s.off + 5..s.off + s.size) else { continue };
        if p[..8] != *b"\x89PNG\r\n\x1a\n" {
            continue;
        }
        let mut at = 8;
        while at + 12 <= p.len() {
            let len = u32::from_be_bytes(p[at..at + 4].try_into().unwrap()) as usize;
            let Some(end) = at.checked_add(8 + len).filter(|e| e + 4 <= p.len()) else { break };
            let crc = crc32(&p[at + 4..end]).to_be_bytes();
            n += u64::from(p[end..end + 4] != crc);
            p[end..end + 4].copy_from_slice(&crc);
            at = end + 4;
        }
    }
    n
}

fn maxrss() -> u64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut u);
        u.ru_maxrss as u64 * 1024
    }
}

/// Every accessor of a section.
fn probe(s: &grib::SectionInfo) -> u64 {
    use grib::SectionBody::*;
    let _ = (s.get_tmpl_code(), s.get_tmpl_code().map(|t| (t.to_string(), t.describe())));
    let t = match s.body.as_ref() {
        Some(Section0(x)) => format!("{x:?}"),
        Some(Section1(x)) => format!(
            "{:?}{:?}",
            (x.iter().count(), x.centre_id(), x.subcentre_id(), x.master_table_version(), x.local_table_version()),
            (x.ref_time_significance(), x.ref_time().ok(), x.prod_status(), x.data_type())
        ),
        Some(Section2(x)) => format!("{}", x.iter().count()),
        Some(Section3(x)) => {
            let v = grib::GridDefinitionTemplateValues::try_from(x).map(|v| (v.grid_shape(), v.short_name())).ok();
            format!("{:?}{v:?}", (x.iter().count(), x.num_points(), x.grid_tmpl_num()))
        }
        Some(Section4(x)) => format!(
            "{:?}{:?}",
            (x.iter().count(), x.num_coordinates(), x.prod_tmpl_num(), x.parameter_category(), x.parameter_number(), x.generating_process()),
            (x.forecast_time().map(|f| f.describe()), x.fixed_surfaces().map(|(a, b)| (a.describe(), b.describe())))
        ),
        Some(Section5(x)) => format!("{:?}", (x.iter().count(), x.num_points(), x.repr_tmpl_num())),
        o => format!("{o:?}"),
    };
    crate::rng::hash_str(&t)
}

const PULL: usize = 2_000_000;

/// Every public way of looking at a file.
pub fn walk<R: grib::Grib2Read>(h: &Grib2<R>, src: &Source, st: &mut Stats) -> Result<(), Viol> {
    let _ = h.list_templates().iter().map(|t| (t.to_string(), t.describe())).count();
    for s in h.sections() {
        st.mix(s.offset as u64);
        st.mix(probe(s));
    }
    for (idx, s) in h.iter() {
        src.refill_budget();
        st.mix_str(&s.describe());
        let _ = (s.parameter().map(|p| (p.description(), p.num)), s.grid_shape().is_ok());
        let ft = s.prod_def().forecast_time().map(|f| f.describe());
        let fs = s.prod_def().fixed_surfaces().map(|(a, b)| (a.describe(), b.describe(), a.value(), b.value(), a.unit().map(String::from)));
        st.mix_str(&format!("{ft:?}{fs:?}"));
        let npts = s.grid_def().num_points() as usize;
        if let Ok(it) = s.ij() {
            let n = it.take(PULL.min(npts.saturating_add(1))).count();
            if n > npts {
                return viol("too-many", format!("{idx:?}: more than {npts} grid indices"));
            }
        }
        // the cost of Gaussian latitudes grows with the square of their number: bounded, but not affordable here
        let gauss_nj = s.grid_shape().map_or(0, |x| x.1);
        let tmpl = s.grid_def().grid_tmpl_num();
        if tmpl != 40 || gauss_nj <= 3000 {
            if let Ok(it) = s.latlons() {
                let n = it.take(PULL.min(npts.saturating_add(1))).count();
                if n > npts {
                    return viol("too-many", format!("{idx:?}: more than {npts} coordinates"));
                }
            }
        } else if gauss_nj < 1 << 23 {
            let _ = grib::utils::compute_gaussian_latitudes(gauss_nj).next();
        }
        let _ = format!("{:?}", s.0.body.body);
        if let Ok(d) = Grib2SubmessageDecoder::from(s) {
            match d.dispatch() {
                Ok(mut it) => {
                    let h = it.size_hint();
                    if h.0 > npts || h.1.is_some_and(|x| x < h.0) {
                        return viol("too-many", format!("{idx:?}: size hint {h:?} for {npts} points"));
                    }
                    let mut n = 0usize;
                    let mut acc = 0u64;
                    for v in it.by_ref().take(PULL.min(npts.saturating_add(1))) {
                        n += 1;
                        acc = acc.wrapping_mul(31).wrapping_add(v.to_bits().into());
                    }
                    st.mix(acc);
                    st.add("values_pulled", n as u64);
                    st.add("decoded", 1);
                    if n > npts {
                        return viol("too-many", format!("{idx:?}: more than the declared {npts} values"));
                    }
                }
                Err(e) => {
                    let _ = (e.to_string(), format!("{e:?}"));
                    st.add("decode_refused", 1);
                }
            }
        }
    }
    Ok(())
}

fn points(bytes: &[u8]) -> i64 {
    // generous: every possible section 3 of the file
    let mut sum = 0i64;
    for w in bytes.windows(11) {
        if w[4] == 3 {
            sum = sum.saturating_add(u32::from_be_bytes(w[6..10].try_into().unwrap()).into());
        }
    }
    sum
}

pub struct C08;

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn count(&self) -> (u64, u64) {
        (80_000, 1_600_000)
    }
    fn rule(&self) -> &'static str {
        "a well-formed file is damaged (fields set to boundary values, sections shuffled, cut, lengthened, zeroed, random contents; sections shorter or longer than their templates with consistent lengths), and everything the library offers is called on it under a memory budget of 256 MiB + 64 octets per octet of the file + 16 per declared point, a call budget and a CPU budget; non-trivial: the bytes were changed; distinct by event-log digest"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "of the memory taken by the C library openjpeg, only single requests are checked against the budget (plus 256 MiB), and the resident size against 1.5 GiB + 16 octets per declared point",
            "coordinates of damaged Gaussian grids with more than 3000 parallels are not computed (quadratic cost); at most 2 million values are pulled from one iterator",
        ]
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let mut k = Knobs::pick(r);
        k.max_side = *r.pick(&[3u64, 5, 9, 16]);
        k.max_msgs = 2;
        k.max_subs = 2;
        k.big_chance = 0;
        k.packs = vec![ALL_PACKS[(idx % 6) as usize]];
        if r.chance(1, 10) {
            k.packs = ALL_PACKS.to_vec();
        }
        let mut file = gen_file(r, &k);
        for m in &mut file.msgs {
            m.junk %= 40;
        }
        file.tail %= 40;
        let mode = r.below(10);
        let mut sc = Sc { file, delivery: if r.chance(1, 3) { gen_delivery(r) } else { Delivery::default() }, ..Default::default() };
        if mode < 7 {
            sc.pokes = (0..1 + r.below(*r.clone().pick(&[1u64, 1, 3, 10]))).map(|_| gen_poke(r)).collect();
            let _ = r.u64();
        }
        if mode >= 5 {
            sc.damage = (0..1 + r.below(3)).map(|_| Dmg { kind: r.below(10) as u8, at: r.below(1 << 31) as u32, val: r.u64() }).collect();
        }
        if mode == 4 || r.chance(1, 10) {
            sc.resize = (0..1 + r.below(2)).map(|_| gen_resize(r)).collect();
            if mode == 4 {
                sc.pokes.truncate(1);
            }
        }
        if r.chance(1, 12) {
            sc.cut = 1 + r.below(1 << 20) as u32;
        }
        if r.chance(1, 12) {
            sc.faults.push(gen_fault(r, 60));
        }
        if r.chance(1, 8) && sc.file.msgs.iter().flat_map(|m| &m.subs).any(|s| matches!(s.pack.tmpl, 2 | 3)) {
            // the parameters of the groups of complex packing, several at a time
            sc.pokes.truncate(1);
            let zero = r.chance(1, 2);
            for (at, width) in [(14u32, 1u8), (26, 4), (30, 1), (31, 1), (32, 4), (36, 1), (37, 4), (41, 1)] {
                let val = match r.below(4) {
                    _ if zero && at != 26 && at != 37 => 0,
                    0 => *r.pick(&[31, 32]),
                    1 => 0,
                    _ => interesting(r, width),
                };
                if r.chance(if zero { 4 } else { 2 }, 5) {
                    sc.pokes.push(Poke { sect: 0, num: 5, at, width, val });
                }
            }
            for _ in 0..r.below(4) {
                sc.pokes.push(Poke { sect: 0, num: 7, at: r.below(14) as u32, width: 4, val: interesting(r, 4) });
            }
        }
        if r.chance(1, 6) && sc.file.msgs.iter().flat_map(|m| &m.subs).any(|s| s.pack.tmpl == 3) {
            // large values and a large minimum: sums of the two at the edge of what 32 bits hold
            for s in sc.file.msgs.iter_mut().flat_map(|m| m.subs.iter_mut()) {
                s.field.amp = 28 + r.below(4) as u8;
                s.pack.octets = 4;
                s.pack.order = 1 + r.below(2) as u8;
            }
            sc.pokes.truncate(1);
            for _ in 0..1 + r.below(3) {
                let at = 4 * r.below(3) as u32;
                let val = *r.pick(&[0x7fff_ffffu64, 0x7000_0000, 0xffff_ffff, 0x4000_0000]);
                sc.pokes.push(Poke { sect: r.below(8) as u32, num: 7, at, width: 4, val });
            }
        }
        if r.chance(1, 10) {
            // another size of the grid, told the same way everywhere
            sc.pokes.truncate(1);
            let (ni, nj) = if r.chance(3, 4) {
                *r.pick(&[(0u32, 0u32), (0, 1), (1, 0), (0, 7), (7, 0), (1, 1), (0, u32::MAX), (u32::MAX, 0)])
            } else {
                *r.pick(&[(1, u32::MAX), (u32::MAX, 1), (65536, 65536), (1 << 20, 1), (3, 1 << 28), (1 << 28, 2)])
            };
            let n = ni.wrapping_mul(nj);
            for (num, at, val) in [(3, 25, ni), (3, 29, nj), (3, 1, n), (5, 0, n)] {
                if r.chance(9, 10) {
                    sc.pokes.push(Poke { sect: 0, num, at, width: 4, val: val.into() });
                }
            }
            if r.chance(1, 3) {
                sc.pokes.push(Poke { sect: 0, num: 5, at: 26, width: 4, val: n.into() });
            }
        }
        if r.chance(1, 8) && sc.file.msgs.iter().flat_map(|m| &m.subs).any(|s| s.pack.tmpl == 40) {
            // the header of the code stream: size of the image and of its tiles, components
            sc.pokes.truncate(1);
            for _ in 0..1 + r.below(4) {
                let (at, width) = *r.pick(&[(8u32, 4u8), (12, 4), (16, 4), (20, 4), (24, 4), (28, 4), (32, 4), (36, 4), (40, 2), (42, 1), (43, 1), (44, 1)]);
                sc.pokes.push(Poke { sect: r.below(64) as u32, num: 7, at, width, val: interesting(r, width) });
            }
        }
        if r.chance(1, 2) && sc.file.msgs.iter().flat_map(|m| &m.subs).any(|s| s.pack.tmpl == 41) {
            sc.crc = true;
            if r.chance(2, 3) {
                // the header of the image
                sc.pokes.truncate(1);
                for _ in 0..1 + r.below(2) {
                    let (at, width) = *r.pick(&[(16u32, 4u8), (16, 4), (16, 1), (18, 2), (20, 4), (20, 4), (20, 1), (22, 2), (24, 1), (25, 1), (28, 1)]);
                    sc.pokes.push(Poke { sect: r.below(64) as u32, num: 7, at, width, val: interesting(r, width) });
                }
            }
        }
        serde_json::to_value(sc).unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc = serde_json::from_value(sc.clone()).unwrap_or_default();
        let b = build(&sc.file);
        let mut bytes = b.bytes.clone();
        poke(&b, &mut bytes, &sc.pokes, 0);
        if sc.crc {
            st.add("png_checksums_matched", fix_png(&b, &mut bytes));
        }
        if !sc.damage.is_empty() {
            let b2 = Built { bytes, ..b.clone() };
            bytes = apply(&b2, &sc.damage);
        } else {
            resize(&b, &mut bytes, &sc.resize);
        }
        if sc.cut > 0 {
            let n = bytes.len() * (sc.cut as usize % 1_000_003) / 1_000_003;
            bytes.truncate(n);
        }
        st.nontrivial = bytes != b.bytes;
        st.add("fault:damaged_file", u64::from(bytes != b.bytes));
        let pts = points(&bytes);
        let budget = (256i64 << 20) + 64 * bytes.len() as i64 + pts.saturating_mul(16).min(1 << 50);
        let len = bytes.len();
        let src = Source::new(bytes.clone(), b.start, &sc.delivery);
        src.arm(&sc.faults);
        alloc::begin(budget);
        let r = (|| -> Result<(), Viol> {
            match grib::from_reader(src.reader(&sc.delivery)) {
                Ok(h) => {
                    st.add("accepted", 1);
                    walk(&h, &src, st)?;
                }
                Err(e) => {
                    let _ = (e.to_string(), format!("{e:?}"));
                    st.add("refused", 1);
                }
            }
            src.refill_budget();
            src.disarm();
            if mix(len as u64) % 3 == 0 {
                // the streams, going on after errors
                src.0.borrow_mut().pos = b.start as u64;
                let n = Grib2SectionStream::new(SeekableGrib2Reader::new(src.reader(&sc.delivery))).take(2 * len + 100).count();
                if n > len + 50 {
                    return viol("hang", format!("section stream over {len} octets yields more than {n} items"));
                }
                src.0.borrow_mut().pos = b.start as u64;
                let s = Grib2SubmessageStream::new(Grib2SectionStream::new(SeekableGrib2Reader::new(src.reader(&sc.delivery))));
                if s.take(len + 100).count() > len + 50 {
                    return viol("hang", format!("submessage stream over {len} octets does not end"));
                }
            }
            Ok(())
        })();
        let (over, peak) = (alloc::over(), alloc::peak());
        alloc::begin(i64::MAX - 1);
        st.add("peak_octets_sum", peak.max(0) as u64);
        open_stats(&src, st);
        st.nontrivial = bytes != b.bytes;
        r?;
        if over > 0 {
            return viol("memory", format!("a file of {len} octets declaring {pts} points made the library ask for {over} octets, beyond the budget of {budget}"));
        }
        let rss = maxrss();
        if rss > (1536 << 20) + (pts.min(1 << 40) as u64) * 16 {
            return viol("memory", format!("resident size reached {rss} octets for a file of {len} octets declaring {pts} points"));
        }
        Ok(())
    }
}
