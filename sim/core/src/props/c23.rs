//! C23: files, messages and sections of more than 2 or 4 GiB (of which the simulated source stores only what matters).

use super::c22::{head, torn, whole};
use super::open_stats;
use crate::enc::*;
use crate::io::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use grib::{Grib2SectionStream, Grib2SubmessageStream, SeekableGrib2Reader};
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc {
    file: FileSpec,
    delivery: Delivery,
    /// what precedes the position at which the file is opened
    lead: u64,
    /// which data section, and how much is added to it
    huge: Vec<(u32, u32)>,
    /// 0: the file is complete; otherwise where it is cut, in 2^32ths
    cut: u32,
    /// submessages to decode, in this order
    subs: Vec<u32>,
    faults: Vec<Fault>,
}

/// The file with its data sections enlarged: contents with holes, and the model.
fn enlarge(b: &Built, lead: u64, huge: &[(u32, u32)]) -> (Built, Vec<(usize, u64)>, Vec<bool>) {
    let mut e = b.clone();
    let mut holes = vec![];
    let s7: Vec<usize> = (0..b.sects.len()).filter(|i| b.sects[*i].num == 7).collect();
    let mut add = vec![0u64; b.sects.len()];
    for (k, n) in huge {
        if !s7.is_empty() {
            let i = s7[*k as usize % s7.len()];
            add[i] = u64::from(*n).min(u64::from(u32::MAX) - b.sects[i].size as u64);
        }
    }
    let start = b.start as u64 + lead;
    if lead > 0 {
        holes.push((0, lead));
    }
    let mut shift = lead;
    for (i, s) in b.sects.iter().enumerate() {
        e.sects[i].off += shift as usize;
        if add[i] > 0 {
            e.sects[i].size += add[i] as usize;
            e.bytes[s.off..s.off + 4].copy_from_slice(&(e.sects[i].size as u32).to_be_bytes());
            holes.push((s.off + s.size, add[i]));
            shift += add[i];
        }
    }
    for m in &mut e.msgs {
        let (from, to) = (m.off, m.off + m.len);
        let grown: u64 = (0..add.len()).filter(|i| b.sects[*i].off >= from && b.sects[*i].off < to).map(|i| add[i]).sum();
        let before: u64 = (0..add.len()).filter(|i| b.sects[*i].off < from).map(|i| add[i]).sum();
        m.off += (lead + before) as usize;
        m.len += grown as usize;
        e.bytes[from + 8..from + 16].copy_from_slice(&(m.len as u64).to_be_bytes());
    }
    e.start = start as usize;
    let huge = b.subs.iter().map(|s| s.s[7].is_some_and(|i| add[i] > 0)).collect();
    (e, holes, huge)
}

pub struct C23;

impl Prop for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn count(&self) -> (u64, u64) {
        (250_000, 5_000_000)
    }
    fn rule(&self) -> &'static str {
        "files whose data sections are enlarged up to 4 GiB - 1 and whose begin lies up to 2^50 octets into the source (holes of the simulated source), complete or cut anywhere, opened, streamed, and decoded where the data section is of ordinary size, under seeded delivery and read or seek errors; evaluations: operations; non-trivial: a position or length beyond 2^31; distinct by event-log digest"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["data sections of more than 2^20 octets are listed, not decoded", "64-bit positions (usize)"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let mut file = gen_small_file(r);
        for _ in 0..r.below(3) {
            let m = gen_small_file(r).msgs;
            file.msgs.extend(m);
        }
        let size = |r: &mut Rng| -> u32 {
            match r.below(6) {
                0 => u32::MAX,
                1 => (1 << 31) - 300 + r.below(600) as u32,
                2 => r.below(1 << 32) as u32,
                3 => (r.below(4) << 30) as u32,
                4 => u32::MAX - r.below(70_000) as u32,
                _ => (1 << 24) + r.below(1 << 20) as u32,
            }
        };
        let huge = (0..1 + r.below(4)).map(|_| (r.below(24) as u32, size(r))).collect();
        let lead = match r.below(5) {
            0 => (1u64 << 32) - r.below(2000),
            1 => (1u64 << 31) - r.below(2000),
            2 => r.below(1 << 50),
            _ => 0,
        };
        let cut = if r.chance(1, 3) { 1 + r.below(u32::MAX.into()) as u32 } else { 0 };
        let faults = if r.chance(1, 4) { vec![Fault { at: r.below(40) as u32, kind: r.below(10) as u8, times: r.below(3) as u32 }] } else { vec![] };
        let subs = (0..r.below(8)).map(|_| r.below(24) as u32).collect();
        serde_json::to_value(Sc { file, delivery: gen_delivery(r), lead, huge, cut, subs, faults }).unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc = serde_json::from_value(sc.clone()).unwrap_or_default();
        let b = build(&sc.file);
        if b.subs.is_empty() {
            return Ok(());
        }
        let (e, holes, huge) = enlarge(&b, sc.lead.min(1 << 62), &sc.huge);
        let total = e.bytes.len() as u64 + holes.iter().map(|h| h.1).sum::<u64>();
        let src = Source::new(e.bytes.clone(), e.start, &sc.delivery);
        let len = match sc.cut {
            0 => total,
            c => e.start as u64 + ((u128::from(total - e.start as u64) * u128::from(c)) >> 32) as u64,
        };
        {
            let s = &mut *src.0.borrow_mut();
            s.holes = holes;
            s.written = Some(len);
        }
        let p = head(&e, whole(&e, len));
        let cut = torn(&e, len);
        let rewind = || src.0.borrow_mut().pos = e.start as u64;
        st.add("positions_beyond_2_31", p.sects.iter().filter(|s| s.off + s.size > 1 << 31).count() as u64);
        let r = (|| -> Result<(), Viol> {
            // streams, first with faults
            for faulty in [true, false] {
                if faulty && sc.faults.is_empty() {
                    continue;
                }
                src.disarm();
                if faulty {
                    src.arm(&sc.faults);
                }
                let fired = src.fired();
                st.evals += 2;
                rewind();
                let (mut n, mut err) = (0, None);
                for s in Grib2SectionStream::new(SeekableGrib2Reader::new(src.reader(&sc.delivery))) {
                    match (s, e.sects.get(n)) {
                        (Ok(s), Some(x)) if (s.num, s.offset, s.size) == (x.num, x.off, x.size) => {}
                        (Err(x), _) => {
                            err = Some(x);
                            break;
                        }
                        (Ok(s), x) => return viol("stream", format!("the section stream yields {s:?} as entry {n}, expected {x:?}")),
                    }
                    n += 1;
                }
                let failed = src.fired() > fired;
                if n < p.sects.len() && !(failed && err.is_some()) {
                    return viol("lost", format!("the section stream ended with {err:?} after {n} of {} sections", p.sects.len()));
                }
                if err.is_some() && !failed && !cut {
                    return viol("refused", format!("the section stream ended with {err:?}"));
                }
                rewind();
                let fired = src.fired();
                let (mut n, mut err) = (0, None);
                for x in Grib2SubmessageStream::new(Grib2SectionStream::new(SeekableGrib2Reader::new(src.reader(&sc.delivery)))) {
                    match (x, p.subs.get(n)) {
                        (Ok((mi, si, s)), Some(m)) if (mi, si) == m.idx && s.7.offset == e.sects[m.s[7].unwrap_or(0)].off => {}
                        (Err(x), _) => {
                            err = Some(x);
                            break;
                        }
                        // submessages of the torn message may come before the error
                        (Ok(_), None) if cut => {}
                        (Ok((mi, si, _)), m) => return viol("stream", format!("the submessage stream yields {:?} as entry {n}, expected {:?}", (mi, si), m.map(|m| m.idx))),
                    }
                    n += 1;
                }
                let failed = src.fired() > fired;
                if n < p.subs.len() && !(failed && err.is_some()) {
                    return viol("lost", format!("the submessage stream ended with {err:?} after {n} of {} submessages", p.subs.len()));
                }
                if err.is_some() != cut && !failed {
                    return viol("torn", format!("the submessage stream ended with {err:?} though the file is {}", if cut { "torn" } else { "complete" }));
                }
            }
            rewind();
            st.evals += 1;
            let h = match grib::from_reader(src.reader(&sc.delivery)) {
                Ok(_) if cut => return viol("torn", "a file cut inside a message was opened"),
                Err(_) if cut => {
                    st.add("torn_refused", 1);
                    return Ok(());
                }
                Err(x) => return viol("refused", format!("{x:?}")),
                Ok(h) => h,
            };
            let got: Vec<_> = h.sections().map(|s| (s.num, s.offset, s.size)).collect();
            let exp: Vec<_> = p.sects.iter().map(|s| (s.num, s.off, s.size)).collect();
            if let Some(k) = (0..got.len().max(exp.len())).find(|k| got.get(*k) != exp.get(*k)) {
                return viol("listing", format!("section {k} is reported as {:?} (number, offset, size), file has {:?}", got.get(k), exp.get(k)));
            }
            if h.len() != p.subs.len() || h.list_templates() != templates(&p) {
                return viol("listing", format!("{} submessages reported, file has {}; or templates differ", h.len(), p.subs.len()));
            }
            for ((idx, s), m) in h.iter().zip(&p.subs) {
                check_index(idx, &s, m, &p)?;
                check_meta(&s, m, &p.msgs[m.idx.0])?;
            }
            for (i, k) in sc.subs.iter().enumerate() {
                let k = *k as usize % p.subs.len().max(1);
                let Some(m) = p.subs.get(k).filter(|_| !huge[k]) else { continue };
                src.disarm();
                if i % 2 == 0 {
                    src.arm(&sc.faults);
                }
                let fired = src.fired();
                st.evals += 1;
                let (_, s) = h.iter().nth(k).expect("submessage");
                match decode(s) {
                    Err(_) if src.fired() > fired => {}
                    r => judge_decode(r, m)?,
                }
                st.add("decodes_compared", 1);
            }
            Ok(())
        })();
        open_stats(&src, st);
        st.nontrivial = p.sects.iter().any(|s| s.off + s.size > 1 << 31);
        r
    }
}
