//! C01 listing and metadata, C02 values: well-formed files under seeded legal delivery.

use crate::enc::*;
use super::open_stats;
use crate::io::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use grib::{Grib2SectionStream, Grib2SubmessageStream, SectionBody, SeekableGrib2Reader};
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc {
    file: FileSpec,
    delivery: Delivery,
    /// order in which submessages are decoded (C02)
    order: Vec<u32>,
    /// decode through a fresh handle on a slice as well
    slice: bool,
}

pub struct C01;

impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn count(&self) -> (u64, u64) {
        (220_000, 4_000_000)
    }
    fn fresh(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "a seeded well-formed file (1-5 messages, repeated sections, junk between messages, any start position) is opened through a seeded delivery schedule; non-trivial: at least one short or interrupted transfer really happened; distinct by event-log digest"
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let mut k = Knobs::pick(r);
        if idx % 3 == 0 {
            k.max_side = 4;
            k.max_msgs = 6;
            k.max_subs = 6;
        }
        let (mut file, mut delivery) = (gen_file(r, &k), gen_delivery(r));
        if idx % 1000 == 377 {
            (file, delivery) = (gen_scale(r, idx / 1000), gen_delivery_large(r));
        }
        serde_json::to_value(Sc { file, delivery, order: vec![], slice: r.chance(1, 3) }).unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc = serde_json::from_value(sc.clone()).unwrap_or_default();
        let b = build(&sc.file);
        let src = Source::new(b.bytes.clone(), b.start, &sc.delivery);
        let h = match grib::from_reader(src.reader(&sc.delivery)) {
            Ok(h) => h,
            Err(_) if b.msgs.is_empty() => {
                open_stats(&src, st);
                return Ok(());
            }
            Err(e) => {
                open_stats(&src, st);
                return viol("open", format!("well-formed file refused: {e:?}"));
            }
        };
        open_stats(&src, st);
        check_listing(&h, &b)?;
        for (i, (_, s)) in h.iter().enumerate() {
            let m = &b.subs[i];
            check_meta(&s, m, &b.msgs[m.idx.0])?;
        }
        for (mi, m) in b.msgs.iter().enumerate() {
            let s1 = h.sections().nth(m.sect0 + 1);
            match s1.and_then(|s| s.body.as_ref()) {
                Some(SectionBody::Section1(x)) => check_ident(x, &m.id, (mi, 0))?,
                o => return viol("listing", format!("message {mi}: second section is {o:?}")),
            }
        }
        drop(h);
        // the same in memory
        if b.start == 0 && !b.msgs.is_empty() {
            let h = grib::from_slice(&b.bytes).map_err(|e| Viol { class: "open".into(), detail: format!("well-formed octets refused: {e:?}") })?;
            check_listing(&h, &b)?;
        }
        // the same through the section stream
        let src = Source::new(b.bytes.clone(), b.start, &sc.delivery);
        let stream = Grib2SectionStream::new(SeekableGrib2Reader::new(src.reader(&sc.delivery)));
        let mut n = 0;
        for s in stream {
            match s {
                Err(e) => return viol("stream", format!("section stream reports {e:?} after {n} sections")),
                Ok(s) => {
                    let Some(e) = b.sects.get(n) else {
                        return viol("stream", format!("section stream yields more than the {} sections of the file", b.sects.len()));
                    };
                    if (s.num, s.offset, s.size) != (e.num, e.off, e.size) {
                        return viol("stream", format!("section stream yields (num {}, offset {}, size {}) as entry {n}, file has {e:?}", s.num, s.offset, s.size));
                    }
                    if let Err(m) = body_matches(&s, &b.bytes) {
                        return viol("stream", m);
                    }
                }
            }
            n += 1;
        }
        if n != b.sects.len() {
            return viol("stream", format!("section stream ended after {n} of {} sections", b.sects.len()));
        }
        open_stats(&src, st);
        // and through the submessage stream
        let src = Source::new(b.bytes.clone(), b.start, &sc.delivery);
        let stream = Grib2SectionStream::new(SeekableGrib2Reader::new(src.reader(&sc.delivery)));
        let mut n = 0;
        for s in Grib2SubmessageStream::new(stream) {
            match s {
                Err(e) => return viol("stream", format!("submessage stream reports {e:?} after {n} submessages")),
                Ok((mi, si, s)) => {
                    let Some(m) = b.subs.get(n) else {
                        return viol("stream", "submessage stream yields too many submessages".to_string());
                    };
                    if (mi, si) != m.idx {
                        return viol("stream", format!("submessage stream yields {:?} as entry {n}, expected {:?}", (mi, si), m.idx));
                    }
                    let secs = [Some(&s.0), Some(&s.1), s.2.as_ref(), Some(&s.3), Some(&s.4), Some(&s.5), Some(&s.6), Some(&s.7), Some(&s.8)];
                    for (k, x) in secs.iter().enumerate() {
                        if k == 8 && !m.last_in_msg {
                            continue;
                        }
                        let e = m.s[k].map(|i| (b.sects[i].num, b.sects[i].off, b.sects[i].size));
                        let g = x.map(|x| (x.num, x.offset, x.size));
                        if e != g {
                            return viol("stream", format!("submessage stream, {:?}: section {k} is {g:?}, expected {e:?}", m.idx));
                        }
                    }
                }
            }
            n += 1;
        }
        if n != b.subs.len() {
            return viol("stream", format!("submessage stream ended after {n} of {} submessages", b.subs.len()));
        }
        open_stats(&src, st);
        st.evals = 3;
        if sc.slice && b.start == 0 {
            match grib::from_slice(&b.bytes) {
                Err(e) => return viol("open", format!("from_slice refused a well-formed file: {e:?}")),
                Ok(h) => {
                    if h.len() != b.subs.len() || h.sections().count() != b.sects.len() || h.list_templates() != templates(&b) {
                        return viol("listing", "from_slice lists something else".to_string());
                    }
                }
            }
            st.evals += 1;
        }
        st.add("messages", b.msgs.len() as u64);
        st.add("submessages", b.subs.len() as u64);
        Ok(())
    }
}

pub struct C02;

impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn count(&self) -> (u64, u64) {
        (350_000, 7_000_000)
    }
    fn rule(&self) -> &'static str {
        "a seeded well-formed file is opened and its submessages are decoded, in a seeded order, through a seeded delivery schedule, and each value is compared with the encoder's expectation; non-trivial: at least one value compared under at least one short or interrupted transfer; distinct by event-log digest"
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let mut k = Knobs::pick(r);
        if idx % 2 == 0 {
            k.packs = vec![ALL_PACKS[(idx / 2 % 6) as usize]];
            k.max_msgs = 1;
        }
        if r.chance(1, 30) {
            k.big_chance = 12;
            k.max_msgs = 1;
            k.max_subs = 2;
        }
        let mut file = gen_file(r, &k);
        let mut delivery = gen_delivery(r);
        if idx % 300 == 177 {
            (file, delivery) = (gen_scale(r, 4), gen_delivery_large(r));
        }
        let n: u64 = file.msgs.iter().map(|m| m.subs.len() as u64).sum();
        let mut order: Vec<u32> = (0..n as u32).collect();
        r.shuffle(&mut order);
        if r.chance(1, 4) {
            order.push(r.below(n) as u32);
        }
        serde_json::to_value(Sc { file, delivery, order, slice: r.chance(1, 4) }).unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc = serde_json::from_value(sc.clone()).unwrap_or_default();
        let b = build(&sc.file);
        let src = Source::new(b.bytes.clone(), b.start, &sc.delivery);
        let h = match grib::from_reader(src.reader(&sc.delivery)) {
            Ok(h) => h,
            Err(_) if b.msgs.is_empty() => return Ok(()),
            Err(e) => return viol("open", format!("well-formed file refused: {e:?}")),
        };
        st.evals = 0;
        for &k in &sc.order {
            let k = k as usize % b.subs.len().max(1);
            let Some((_, s)) = h.iter().nth(k) else { return viol("listing", format!("submessage {k} is not there")) };
            src.refill_budget();
            let m = &b.subs[k];
            match &m.expect {
                Expect::Refused => st.add("refusals_expected", 1),
                Expect::Values(v) => {
                    st.add("values_compared", v.len() as u64);
                    st.add(&format!("pack_{}", m.repr), 1);
                    if m.bmp_kind == 1 {
                        st.add("with_bitmap", 1);
                    }
                }
            }
            st.evals += 1;
            let r = check_decode(s, m);
            open_stats(&src, st);
            r?;
        }
        if sc.slice && b.start == 0 {
            let h = grib::from_slice(&b.bytes).map_err(|e| Viol { class: "open".into(), detail: format!("from_slice: {e:?}") })?;
            for ((_, s), m) in h.iter().zip(&b.subs) {
                let r = grib::Grib2SubmessageDecoder::from(s).and_then(|d| d.dispatch().map(|i| i.collect::<Vec<f32>>()));
                judge_decode(r, m)?;
                st.evals += 1;
            }
        }
        Ok(())
    }
}
