//! C15: damage inside one submessage's data stays confined to it.

use super::c08::{gen_poke, Poke};
use super::open_stats;
use crate::enc::*;
use crate::io::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc {
    file: FileSpec,
    delivery: Delivery,
    /// the submessage that is hit
    sub: u32,
    pokes: Vec<Poke>,
    /// random octets over a range of the data section
    burst: u32,
    burst_seed: u64,
    order: Vec<u32>,
    /// octets cut off the data section of the submessage, lengths adjusted
    cut7: u32,
    /// octets cut off its bitmap, lengths adjusted
    cut6: u32,
    /// its image lacks rows (or, of a single row, points)
    img: u8,
    /// and stores 16 bits for 8
    deep: bool,
}

pub struct C15;

impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn count(&self) -> (u64, u64) {
        (180_000, 4_000_000)
    }
    fn rule(&self) -> &'static str {
        "stored octets inside the data of one submessage of a multi-submessage file are altered without changing lengths, or its data section or bitmap is cut short with the lengths adjusted; the file is opened and all submessages are decoded in a seeded order under a seeded delivery schedule; non-trivial: the bytes were changed and another submessage was compared, or the data were cut; distinct by event-log digest"
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let mut k = Knobs::pick(r);
        k.max_side = *r.pick(&[3u64, 5, 9, 20]);
        k.max_msgs = 3;
        k.max_subs = 3;
        k.big_chance = 0;
        if idx % 2 == 0 {
            k.packs = vec![ALL_PACKS[(idx / 2 % 6) as usize]];
        }
        k.unsupported = false;
        let mut file = gen_file(r, &k);
        for m in &mut file.msgs {
            m.junk %= 60;
        }
        let n: u64 = file.msgs.iter().map(|m| m.subs.len() as u64).sum();
        let mut order: Vec<u32> = (0..n as u32).collect();
        r.shuffle(&mut order);
        let cut = r.chance(2, 5);
        let cut6 = r.chance(1, 6);
        let sub = r.below(16) as u32;
        if cut6 && n > 0 {
            if let Some(s) = file.msgs.iter_mut().flat_map(|m| m.subs.iter_mut()).nth((u64::from(sub) % n) as usize) {
                s.bmp.kind = 1;
            }
        }
        let image = cut && !cut6 && r.chance(1, 3) && n > 0;
        let mut img = 0;
        if image {
            let s = file.msgs.iter_mut().flat_map(|m| m.subs.iter_mut()).nth((u64::from(sub) % n) as usize);
            if s.is_some_and(|s| matches!(s.pack.tmpl, 40 | 41)) {
                img = 1 + r.below(*r.clone().pick(&[1u64, 5, 20])) as u8;
            }
        }
        let deep = r.chance(1, 2);
        let cut7 = if img > 0 { 0 } else if cut && (!cut6 || r.chance(1, 4)) { 1 + r.below(*r.clone().pick(&[2u64, 20, 400])) as u32 } else { 0 };
        serde_json::to_value(Sc {
            file,
            img,
            deep: deep && img > 0,
            delivery: gen_delivery(r),
            sub,
            pokes: if cut { vec![] } else { (0..1 + r.below(4)).map(|_| Poke { num: *r.pick(&[5u8, 5, 6, 7, 7]), ..gen_poke(r) }).collect() },
            burst: if !cut && r.chance(1, 4) { r.below(200) as u32 } else { 0 },
            burst_seed: r.u64(),
            order,
            cut7,
            cut6: if cut && cut6 { 1 + r.below(*r.clone().pick(&[1u64, 3, 60])) as u32 } else { 0 },
        })
        .unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc = serde_json::from_value(sc.clone()).unwrap_or_default();
        let mut spec = sc.file.clone();
        let nsub: usize = build(&spec).subs.len();
        if nsub == 0 {
            return Ok(());
        }
        let hit = sc.sub as usize % nsub;
        if sc.cut7 + sc.cut6 > 0 || sc.img > 0 {
            // locate the submessage in the description
            let mut left = hit;
            for m in spec.msgs.iter_mut() {
                if m.subs.is_empty() {
                    m.subs.push(SubSpec { from: 3, ..Default::default() });
                }
                if left < m.subs.len() {
                    m.subs[left].cut7 = sc.cut7;
                    m.subs[left].pad7 = 0;
                    m.subs[left].cut6 = sc.cut6;
                    m.subs[left].img = sc.img;
                    m.subs[left].deep = sc.deep;
                    break;
                }
                left -= m.subs.len();
            }
        }
        let clean = build(&sc.file);
        let b = build(&spec);
        let mut bytes = b.bytes.clone();
        let m = &b.subs[hit];
        let sect = |n: usize| b.sects[m.s[n].unwrap()].clone();
        for p in &sc.pokes {
            let (s, skip) = match p.num {
                6 => (sect(6), 1),
                7 => (sect(7), 0),
                _ => (sect(5), 6),
            };
            if s.size <= 5 + skip {
                continue;
            }
            let at = s.off + 5 + skip + p.at as usize % (s.size - 5 - skip);
            let w = usize::from(p.width.clamp(1, 8)).min(s.off + s.size - at);
            bytes[at..at + w].copy_from_slice(&p.val.to_be_bytes()[8 - w..]);
        }
        if sc.burst > 0 {
            let s = sect(7);
            let mut r = Rng::new(sc.burst_seed);
            if s.size > 5 {
                let a = r.us(s.size - 5);
                for k in a..(a + sc.burst as usize).min(s.size - 5) {
                    bytes[s.off + 5 + k] = r.u64() as u8;
                }
            }
        }
        let changed = bytes != b.bytes;
        let rows = match (m.bmp_kind, m.grid.nj) {
            (1, _) => m.nenc,
            (_, 1) => m.grid.ni as usize,
            (_, n) => n as usize,
        };
        let image = sc.img > 0 && matches!(m.repr, 40 | 41) && m.nbit > 0 && rows > 1;
        if sc.deep && !image {
            return Ok(());
        }
        let shortened = b.bytes.len() < clean.bytes.len() || image;
        let lost6 = {
            let at = |x: &Built| x.sects[x.subs[hit].s[6].unwrap()].size;
            at(&clean) - at(&b)
        };
        st.add("fault:bitmap_cut_short", u64::from(lost6 > 0));
        st.add("fault:data_altered", u64::from(changed));
        st.add("fault:data_cut_short", u64::from(shortened && !image));
        st.add("fault:smaller_image", u64::from(image));
        let src = Source::new(bytes.clone(), b.start, &sc.delivery);
        let h = match grib::from_reader(src.reader(&sc.delivery)) {
            Ok(h) => h,
            Err(e) => return viol("open", format!("damage inside the data of submessage {hit} prevents opening: {e:?}")),
        };
        let after = Built { bytes, ..b.clone() };
        check_listing(&h, &after)?;
        let mut others = 0;
        for &k in &sc.order {
            let k = k as usize % nsub;
            let m = &b.subs[k];
            src.refill_budget();
            let Some((_, s)) = h.iter().nth(k) else { return viol("listing", format!("submessage {k} is not there")) };
            if k != hit {
                check_decode(s, m).map_err(|v| Viol { class: v.class, detail: format!("submessage {hit} was damaged: {}", v.detail) })?;
                others += 1;
                continue;
            }
            match grib::Grib2SubmessageDecoder::from(s).and_then(|d| d.dispatch().map(|i| i.take(m.npts + 1).collect::<Vec<f32>>())) {
                Err(_) => st.add("damaged_refused", 1),
                Ok(v) => {
                    st.add("damaged_decoded", 1);
                    if v.len() > m.npts {
                        return viol("too-many", format!("damaged submessage {:?} decodes into more than {} values", m.idx, m.npts));
                    }
                    if shortened && !changed {
                        let Expect::Values(e) = &m.expect else {
                            return viol("not-refused", format!("unsupported submessage {:?} was decoded", m.idx));
                        };
                        for (i, (g, x)) in v.iter().zip(e).enumerate() {
                            if !value_ok(*g, x) {
                                return viol("short-data", format!("data or bitmap section of {:?} (template {}, nbit {}) lacks its last {} octets (or its image its last {} rows), but value {i} of {} is decoded as {g}, encoded {:?}", m.idx, m.repr, m.nbit, clean.bytes.len().saturating_sub(b.bytes.len()), sc.img, m.npts, x.map(|x| x.0)));
                            }
                        }
                        // nothing of the lost octets may be made up: they carry at least one bit of some value
                        if v.len() == m.npts && (lost6 > 0 || self.needs_all(&clean, hit)) {
                            return viol("short-data", format!("data or bitmap section of {:?} (template {}) lacks its last {} octets but decodes into the full {} values", m.idx, m.repr, clean.bytes.len().saturating_sub(b.bytes.len()), m.npts));
                        }
                    }
                }
            }
        }
        open_stats(&src, st);
        st.add("others_compared", others);
        st.nontrivial = (changed && others > 0) || shortened;
        Ok(())
    }
}

impl C15 {
    /// every octet of the data section carries values (so that cutting one must cost at least one value)
    fn needs_all(&self, b: &Built, k: usize) -> bool {
        let m = &b.subs[k];
        // trailing missing values need no data; spare octets and image trailers carry none
        m.repr == 0 && m.nbit > 0 && m.bmp_kind == 0
    }
}
