//! C03 torn and damaged files, C16 recovery of the complete prefix after a writer crash.

use super::open_stats;
use crate::enc::*;
use crate::io::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use grib::{Grib2SectionStream, Grib2SubmessageStream, SeekableGrib2Reader};
use serde::{Deserialize, Serialize};
use serde_json::Value;

/// One act of damage; positions are taken modulo what exists, so every value is meaningful.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Dmg {
    /// 0: message length, 1: section length, 2: section number, 3: octet, 4: delete, 5: insert, 6: duplicate,
    /// 7: zero-filled up to the end, 8: end mark, 9: one block zeroed
    pub kind: u8,
    pub at: u32,
    pub val: u64,
}

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc03 {
    file: FileSpec,
    delivery: Delivery,
    /// cut the file at these octets (all octets when `every`)
    cuts: Vec<u32>,
    every: bool,
    damage: Vec<Dmg>,
}

pub fn interesting_len(v: u64, cur: u64, total: u64) -> u64 {
    match v % 14 {
        0 => 0,
        1 => 1,
        2 => 4,
        3 => 5,
        4 => 15,
        5 => 16,
        6 => cur.wrapping_add(1),
        7 => cur.wrapping_sub(1),
        8 => cur.wrapping_add(4),
        9 => cur.wrapping_sub(4),
        10 => total,
        11 => u64::MAX - (v >> 8) % 40,
        12 => (v >> 8) % (total + 20),
        _ => 1 << ((v >> 8) % 64),
    }
}

pub fn apply(b: &Built, dmg: &[Dmg]) -> Vec<u8> {
    let mut v = b.bytes.clone();
    if b.msgs.is_empty() {
        return v;
    }
    for d in dmg {
        if v.is_empty() {
            break;
        }
        let n = v.len();
        match d.kind % 10 {
            0 => {
                let m = &b.msgs[d.at as usize % b.msgs.len()];
                let new = interesting_len(d.val, m.len as u64, n as u64);
                if m.off + 16 <= n {
                    v[m.off + 8..m.off + 16].copy_from_slice(&new.to_be_bytes());
                }
            }
            1 => {
                let s = &b.sects[d.at as usize % b.sects.len()];
                if s.num != 0 && s.num != 8 && s.off + 5 <= n {
                    let new = interesting_len(d.val, s.size as u64, n as u64) as u32;
                    v[s.off..s.off + 4].copy_from_slice(&new.to_be_bytes());
                }
            }
            2 => {
                let s = &b.sects[d.at as usize % b.sects.len()];
                if s.off + 5 <= n {
                    v[s.off + 4] = (d.val % 12) as u8;
                }
            }
            3 => v[d.at as usize % n] = d.val as u8,
            4 => {
                let p = d.at as usize % n;
                let k = (1 + d.val % 64) as usize;
                v.drain(p..(p + k).min(n));
            }
            5 => {
                let p = d.at as usize % n;
                for k in 0..1 + d.val % 40 {
                    v.insert(p, (d.val >> (k % 8 * 8)) as u8);
                }
            }
            6 => {
                let s = &b.sects[d.at as usize % b.sects.len()];
                if s.off + s.size <= n {
                    let c = v[s.off..s.off + s.size].to_vec();
                    let t = &b.sects[d.val as usize % b.sects.len()];
                    let p = t.off.min(v.len());
                    v.splice(p..p, c);
                }
            }
            7 => {
                let p = d.at as usize % n;
                v[p..].fill(0);
            }
            8 => {
                let m = &b.msgs[d.at as usize % b.msgs.len()];
                let e = m.off + m.len;
                if e <= n {
                    v[e - 1 - (d.val % 4) as usize] ^= 1 << ((d.val >> 8) % 8);
                }
            }
            _ => {
                let p = d.at as usize % n;
                let p = if d.val & 1 == 0 { p / 512 * 512 } else { p };
                let e = (p + 512).min(n);
                v[p..e].fill(0);
            }
        }
    }
    v
}

pub struct C03;

impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn count(&self) -> (u64, u64) {
        (18_000, 400_000)
    }
    fn rule(&self) -> &'static str {
        "a small well-formed file is cut at every octet (or at chosen octets), or its lengths, section numbers, end marks and octets are damaged, and is then opened through a seeded delivery schedule; evaluations: openings; non-trivial: a cut inside a message or a damage that changed the bytes; distinct by event-log digest"
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let file = if r.chance(1, 8) {
            let mut k = Knobs::pick(r);
            k.max_side = 20;
            gen_file(r, &k)
        } else {
            gen_small_file(r)
        };
        let mut sc = Sc03 { file, delivery: gen_delivery(r), ..Default::default() };
        let large = idx % 111 == 50;
        if large {
            (sc.file, sc.delivery) = (gen_scale(r, idx / 111), gen_delivery_large(r));
        }
        match if large { 1 + r.below(3) } else { idx % 4 } {
            0 => sc.every = true,
            1 => sc.cuts = (0..1 + r.below(12)).map(|_| r.below(1 << 31) as u32).collect(),
            _ => {
                sc.damage = (0..1 + r.below(3))
                    .map(|_| Dmg { kind: *r.pick(&[0, 0, 0, 1, 1, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9]), at: r.below(1 << 31) as u32, val: r.u64() })
                    .collect();
                if r.chance(1, 4) {
                    sc.cuts.push(r.below(1 << 31) as u32);
                }
            }
        }
        serde_json::to_value(sc).unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc03 = serde_json::from_value(sc.clone()).unwrap_or_default();
        let b = build(&sc.file);
        let bytes = apply(&b, &sc.damage);
        let damaged = bytes != b.bytes;
        let mut cuts: Vec<usize> = sc.cuts.iter().map(|c| *c as usize % (bytes.len() + 1)).collect();
        if sc.every && bytes.len() < 4000 {
            cuts = (b.start.min(bytes.len())..=bytes.len()).collect();
        } else if sc.every {
            cuts = (0..600).map(|k| b.start + (bytes.len() - b.start) * k / 600).collect();
        } else if cuts.is_empty() {
            cuts.push(bytes.len());
        }
        st.evals = 0;
        for c in cuts {
            let data = bytes[..c].to_vec();
            let src = Source::new(data, b.start, &sc.delivery);
            let r = grib::from_reader(src.reader(&sc.delivery));
            st.evals += 1;
            st.add("openings", 1);
            let opened = r.is_ok();
            src.note(u64::from(opened));
            open_stats(&src, st);
            if damaged {
                st.add("fault:damaged_bytes", 1);
                st.nontrivial = true;
            }
            if c < bytes.len() {
                st.add("fault:truncated", 1);
            }
            if let Ok(h) = &r {
                st.add("accepted", 1);
                let n = match audit(h, &bytes[..c], b.start) {
                    Ok(n) => n,
                    Err(m) => return viol("incomplete", format!("file of {} octets cut to {c}: {m}", bytes.len())),
                };
                st.add("messages_audited", n as u64);
            }
            if damaged {
                continue;
            }
            // undamaged up to the cut: exactly the messages before it, or an error when the cut is inside one
            let whole = b.msgs.iter().filter(|m| m.off + m.len <= c).count();
            let inside = b.msgs.get(whole).is_some_and(|m| m.off + 16 <= c);
            if inside {
                st.nontrivial = true;
                st.add("cut_inside_message", 1);
            }
            match &r {
                Ok(_) if inside => {
                    return viol("torn-accepted", format!("file of {} octets cut to {c}, inside message {whole}, was opened without an error", bytes.len()))
                }
                Ok(h) => {
                    let nsub = b.msgs[..whole].iter().map(|m| m.nsubs).sum::<usize>();
                    let nsec = b.msgs[..whole].iter().map(|m| m.nsects).sum::<usize>();
                    if (h.len(), h.sections().count()) != (nsub, nsec) {
                        return viol("lost", format!("cut to {c} octets: {} submessages and {} sections reported, {whole} whole messages have {nsub} and {nsec}", h.len(), h.sections().count()));
                    }
                    for (g, e) in h.sections().zip(&b.sects) {
                        if (g.num, g.offset, g.size) != (e.num, e.off, e.size) {
                            return viol("lost", format!("cut to {c} octets: section {g:?} reported, file has {e:?}"));
                        }
                    }
                }
                Err(e) => {
                    let in_header = b.msgs.get(whole).is_some_and(|m| m.off < c);
                    if !inside && !in_header && whole > 0 {
                        return viol("refused", format!("file cut to {c} octets, between messages (after {whole}), was refused: {e:?}"));
                    }
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C16

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc16 {
    file: FileSpec,
    delivery: Delivery,
    /// octets durable after each crash or resumption of the writer, as fractions of 2^16 of the file
    crashes: Vec<u32>,
    every: bool,
    /// what the file holds behind the durable part: 0 nothing, 1 zeros up to the full size, 2 old content
    tail: u8,
    /// calls of the consumer: items taken from the section stream before the submessage stream is used
    taken: u32,
}

pub struct C16;

impl C16 {
    /// reads a torn file whose first `c` octets are those of `b`
    fn reread(&self, b: &Built, c: usize, data: Vec<u8>, tail: bool, sc: &Sc16, st: &mut Stats) -> Result<(), Viol> {
        let whole = b.msgs.iter().filter(|m| m.off + m.len <= c).count();
        let torn = b.msgs.get(whole).is_some_and(|m| m.off + 16 <= c);
        let nsec: usize = b.msgs[..whole].iter().map(|m| m.nsects).sum();
        let nsub: usize = b.msgs[..whole].iter().map(|m| m.nsubs).sum();
        st.evals += 2;
        st.add("messages_recovered", whole as u64);
        if torn {
            st.nontrivial = true;
            st.add("fault:writer_crash_inside_message", 1);
        } else {
            st.add("fault:writer_crash_between_messages", 1);
        }
        // section stream
        let src = Source::new(data.clone(), b.start, &sc.delivery);
        let mut stream = Grib2SectionStream::new(SeekableGrib2Reader::new(src.reader(&sc.delivery)));
        let mut n = 0;
        let mut err = None;
        while let Some(s) = stream.next() {
            match s {
                Ok(s) => {
                    if n < nsec || !tail {
                        let Some(e) = b.sects.get(n) else {
                            return viol("stream", format!("torn at {c}: section {s:?} does not exist"));
                        };
                        if (s.num, s.offset, s.size) != (e.num, e.off, e.size) {
                            return viol("stream", format!("torn at {c}: section stream yields {s:?} as entry {n}, expected {e:?}"));
                        }
                        if n < nsec {
                            if let Err(m) = body_matches(&s, &b.bytes) {
                                return viol("stream", format!("torn at {c}: {m}"));
                            }
                        }
                    }
                    n += 1;
                    if n > b.sects.len() + 64 {
                        return viol("stream", format!("torn at {c}: more than {n} sections"));
                    }
                }
                Err(e) => {
                    err = Some(format!("{e:?}"));
                    break;
                }
            }
        }
        open_stats(&src, st);
        if n < nsec {
            return viol("lost", format!("torn at {c}: section stream ended with {err:?} after {n} of the {nsec} sections of the {whole} complete messages"));
        }
        if !tail && n > nsec && !torn {
            return viol("stream", format!("torn at {c}: {n} sections from {whole} complete messages with {nsec}"));
        }
        // submessage stream
        let src = Source::new(data, b.start, &sc.delivery);
        let stream = Grib2SectionStream::new(SeekableGrib2Reader::new(src.reader(&sc.delivery)));
        let mut sub = Grib2SubmessageStream::new(stream);
        let mut n = 0;
        let mut msgs_done = 0;
        let mut err = None;
        for it in sub.by_ref() {
            match it {
                Ok((mi, si, s)) => {
                    if n < nsub {
                        let m = &b.subs[n];
                        if (mi, si) != m.idx {
                            return viol("stream", format!("torn at {c}: submessage stream yields {:?} as entry {n}, expected {:?}", (mi, si), m.idx));
                        }
                        let secs = [Some(&s.0), Some(&s.1), s.2.as_ref(), Some(&s.3), Some(&s.4), Some(&s.5), Some(&s.6), Some(&s.7), Some(&s.8)];
                        for (k, x) in secs.iter().enumerate() {
                            if k == 8 && !m.last_in_msg {
                                continue;
                            }
                            let e = m.s[k].map(|i| (b.sects[i].num, b.sects[i].off, b.sects[i].size));
                            let g = x.map(|x| (x.num, x.offset, x.size));
                            if e != g {
                                return viol("stream", format!("torn at {c}: {:?}: section {k} is {g:?}, expected {e:?}", m.idx));
                            }
                        }
                        if m.last_in_msg {
                            msgs_done += 1;
                        }
                    } else if s.8.offset != 0 && sc.tail % 3 != 2 {
                        return viol("stream", format!("torn at {c}: message {mi} is reported complete"));
                    }
                    n += 1;
                    if n > b.sects.len() + 64 {
                        return viol("stream", format!("torn at {c}: more than {n} submessages"));
                    }
                }
                Err(e) => {
                    err = Some(format!("{e:?}"));
                    break;
                }
            }
        }
        let again = sub.next().is_some();
        open_stats(&src, st);
        if n < nsub || msgs_done < whole {
            return viol("lost", format!("torn at {c}: submessage stream ended with {err:?} after {n} of the {nsub} submessages of the {whole} complete messages"));
        }
        if torn && sc.tail % 3 != 2 && err.is_none() {
            return viol("torn-unreported", format!("torn at {c}, inside message {whole}: the submessage stream ends without an error"));
        }
        if err.is_some() && again {
            return viol("stream", format!("torn at {c}: submessage stream continues after its error {err:?}"));
        }
        if !torn && !tail && err.is_some() && b.msgs.get(whole).map_or(true, |m| m.off >= c) {
            return viol("stream", format!("cut at {c}, between messages: error {err:?}"));
        }
        Ok(())
    }
}

impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn count(&self) -> (u64, u64) {
        (22_000, 500_000)
    }
    fn rule(&self) -> &'static str {
        "a writer appends a seeded sequence of messages and crashes at seeded octets (or at every octet); only what was durable survives (optionally followed by zeros or old content); the file is read back through both streams under a seeded delivery schedule after each crash and once the writer is done; non-trivial: a crash inside a message; distinct by event-log digest"
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let mut file = if r.chance(1, 4) {
            let mut k = Knobs::pick(r);
            k.max_msgs = 5;
            k.max_side = 12;
            gen_file(r, &k)
        } else {
            gen_small_file(r)
        };
        if r.chance(1, 2) && file.msgs.len() < 2 {
            let m = gen_small_file(r).msgs;
            file.msgs.extend(m);
        }
        let mut delivery = gen_delivery(r);
        let large = idx % 150 == 50;
        if large {
            (file, delivery) = (gen_scale(r, idx / 150), gen_delivery_large(r));
        }
        serde_json::to_value(Sc16 {
            file,
            delivery,
            crashes: (0..1 + r.below(6)).map(|_| r.below(65537) as u32).collect(),
            every: idx % 3 == 0 && !large,
            tail: *r.pick(&[0u8, 0, 1, 2]),
            taken: r.below(8) as u32,
        })
        .unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc16 = serde_json::from_value(sc.clone()).unwrap_or_default();
        let b = build(&sc.file);
        let len = b.bytes.len();
        st.evals = 0;
        let cuts: Vec<usize> = if sc.every {
            let step = ((len - b.start) / 400).max(1);
            (b.start..=len).step_by(step).collect()
        } else {
            let mut v: Vec<usize> = sc.crashes.iter().map(|c| b.start + (len - b.start) * (*c as usize).min(65536) / 65536).collect();
            v.sort_unstable();
            v
        };
        for c in cuts {
            let mut data = b.bytes[..c].to_vec();
            let tail = sc.tail % 3 != 0 && c < len;
            if tail {
                let n = len - c;
                match sc.tail % 3 {
                    1 => data.extend(vec![0; n]),
                    _ => data.extend(junk(1, n, c as u64)),
                }
                // the octets behind the tear may happen to be right; the oracle only claims what is durable
                st.add("fault:stale_tail", 1);
            }
            self.reread(&b, c, data, tail, &sc, st)?;
        }
        // the writer completes its work: a new reading yields everything, whatever was read before
        let src = Source::new(b.bytes.clone(), b.start, &sc.delivery);
        {
            let mut s = Grib2SectionStream::new(SeekableGrib2Reader::new(src.reader(&sc.delivery)));
            for _ in 0..sc.taken % 16 {
                if s.next().is_none() {
                    break;
                }
            }
        }
        src.0.borrow_mut().pos = b.start as u64;
        let sub = Grib2SubmessageStream::new(Grib2SectionStream::new(SeekableGrib2Reader::new(src.reader(&sc.delivery))));
        let got: Result<Vec<_>, _> = sub.map(|r| r.map(|x| (x.0, x.1))).collect();
        open_stats(&src, st);
        let exp: Vec<_> = b.subs.iter().map(|s| s.idx).collect();
        match got {
            Ok(g) if g == exp => Ok(()),
            g => viol("lost", format!("the completed file reads as {g:?}, expected {exp:?}")),
        }
    }
}
