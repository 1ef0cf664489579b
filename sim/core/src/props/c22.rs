//! C22: a file that is read while it is being written.

use super::open_stats;
use crate::enc::*;
use crate::io::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use grib::{Grib2SectionStream, Grib2SubmessageStream, SeekableGrib2Reader};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::VecDeque;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
struct Op {
    /// 0: open; 1: decode on a handle opened earlier; 2: section stream; 3: submessage stream; 4: listing of a
    /// handle opened earlier; 5: the writer goes on by itself
    kind: u8,
    n: u32,
    sub: u32,
}

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc {
    file: FileSpec,
    delivery: Delivery,
    /// in 65536ths of the file
    first: u32,
    /// calls on the source after which the writer has written more, and how much
    writer: Vec<(u32, u32)>,
    ops: Vec<Op>,
}

/// What there is when the first `j` messages are there.
pub fn head(b: &Built, j: usize) -> Built {
    let msgs = b.msgs[..j].to_vec();
    let ns = msgs.iter().map(|m| m.nsects).sum();
    let nu = msgs.iter().map(|m| m.nsubs).sum();
    Built { bytes: b.bytes.clone(), start: b.start, sects: b.sects[..ns].to_vec(), subs: b.subs[..nu].to_vec(), msgs }
}

/// number of messages that are entirely there
pub fn whole(b: &Built, len: u64) -> usize {
    b.msgs.iter().filter(|m| (m.off + m.len) as u64 <= len).count()
}

pub fn torn(b: &Built, len: u64) -> bool {
    b.msgs.get(whole(b, len)).is_some_and(|m| m.off as u64 + 16 <= len)
}

pub struct C22;

impl Prop for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn count(&self) -> (u64, u64) {
        (250_000, 5_000_000)
    }
    fn fresh(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "a writer appends messages in seeded portions while readers open, stream and decode the file; the schedule says after how many calls on the source the next portion is there; evaluations: operations; non-trivial: the file grew during an operation; distinct by event-log digest"
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let mut file = gen_small_file(r);
        for _ in 0..r.below(3) {
            let m = gen_small_file(r).msgs;
            file.msgs.extend(m);
        }
        let gap = *r.pick(&[1u64, 3, 10, 40, 200]);
        let len = *r.pick(&[1u64, 16, 100, 300, 1000]);
        let writer = (0..r.below(40)).map(|_| (r.below(gap) as u32, 1 + r.below(len) as u32)).collect();
        let ops = (0..2 + r.below(12))
            .map(|_| Op { kind: *r.pick(&[0u8, 0, 0, 1, 1, 2, 3, 3, 4, 5]), n: r.below(400) as u32, sub: r.below(24) as u32 })
            .collect();
        let first = match r.below(3) {
            0 => 0,
            _ => r.below(65537) as u32,
        };
        serde_json::to_value(Sc { file, delivery: gen_delivery(r), first, writer, ops }).unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc = serde_json::from_value(sc.clone()).unwrap_or_default();
        let b = build(&sc.file);
        if b.subs.is_empty() {
            return Ok(());
        }
        let src = Source::new(b.bytes.clone(), b.start, &sc.delivery);
        let len = b.bytes.len() as u64;
        {
            let s = &mut *src.0.borrow_mut();
            s.written = Some((b.start as u64).max(len * u64::from(sc.first.min(65536)) / 65536));
            s.writer = sc.writer.iter().copied().collect::<VecDeque<_>>();
        }
        let now = || src.0.borrow().written.unwrap_or(0).min(len);
        let rewind = || src.0.borrow_mut().pos = b.start as u64;
        let mut handles: Vec<(Handle, Built)> = vec![];
        st.evals = sc.ops.len() as u64 + 1;
        let mut grew = 0;
        let r = (|| -> Result<(), Viol> {
            for (i, op) in sc.ops.iter().chain([&Op { kind: 9, ..Default::default() }]).enumerate() {
                let tag = |v: Viol| Viol { class: v.class, detail: format!("operation {i}: {}", v.detail) };
                trace(|| format!("operation {i}: {op:?}"));
                src.refill_budget();
                rewind();
                if op.kind == 9 {
                    src.0.borrow_mut().write(u32::MAX);
                }
                let v0 = now();
                src.0.borrow_mut().lengths.clear();
                // what there was in the course of the operation
                let torn_then = || torn(&b, v0) || src.0.borrow().lengths.iter().any(|l| torn(&b, *l));
                match op.kind {
                    0 | 9 => {
                        let h = grib::from_reader(src.reader(&sc.delivery));
                        match h {
                            Ok(h) => {
                                let n = h.sections().filter(|s| s.num == 8).count();
                                if n < whole(&b, v0) || n > whole(&b, now()) {
                                    return viol("listing", format!("operation {i}: {n} messages reported, of {} at the begin and {} at the end of the opening", whole(&b, v0), whole(&b, now())));
                                }
                                let p = head(&b, n);
                                check_listing(&h, &p).map_err(tag)?;
                                st.add("opened", 1);
                                handles.push((h, p));
                            }
                            Err(_) if torn_then() => st.add("torn_refused", 1),
                            Err(e) => return viol("refused", format!("operation {i}: {e:?}, though no message was incomplete at any time")),
                        }
                    }
                    2 => {
                        let mut n = 0;
                        let mut err = None;
                        for s in Grib2SectionStream::new(SeekableGrib2Reader::new(src.reader(&sc.delivery))) {
                            match (s, b.sects.get(n)) {
                                (Ok(s), Some(e)) if (s.num, s.offset, s.size) == (e.num, e.off, e.size) => body_matches(&s, &b.bytes).map_err(|m| Viol { class: "stream".into(), detail: m }).map_err(tag)?,
                                (Err(e), _) => {
                                    err = Some(e);
                                    break;
                                }
                                (Ok(s), e) => return viol("stream", format!("operation {i}: the section stream yields {s:?} as entry {n}, expected {e:?}")),
                            }
                            n += 1;
                        }
                        let min: usize = b.msgs[..whole(&b, v0)].iter().map(|m| m.nsects).sum();
                        if n < min {
                            return viol("lost", format!("operation {i}: the section stream ended with {err:?} after {n} of {min} sections that were there all the time"));
                        }
                        if err.is_some() && !torn_then() {
                            return viol("refused", format!("operation {i}: {err:?}, though no message was incomplete at any time"));
                        }
                        st.add("streams", 1);
                    }
                    3 => {
                        let stream = Grib2SectionStream::new(SeekableGrib2Reader::new(src.reader(&sc.delivery)));
                        let mut n = 0;
                        let mut err = None;
                        for x in Grib2SubmessageStream::new(stream) {
                            match (x, b.subs.get(n)) {
                                (Ok((mi, si, s)), Some(m)) if (mi, si) == m.idx && s.7.offset == b.sects[m.s[7].unwrap_or(0)].off => {}
                                (Err(e), _) => {
                                    err = Some(e);
                                    break;
                                }
                                (Ok((mi, si, _)), m) => return viol("stream", format!("operation {i}: the submessage stream yields {:?} as entry {n}, expected {:?}", (mi, si), m.map(|m| m.idx))),
                            }
                            n += 1;
                        }
                        let min: usize = b.msgs[..whole(&b, v0)].iter().map(|m| m.nsubs).sum();
                        if n < min {
                            return viol("lost", format!("operation {i}: the submessage stream ended with {err:?} after {n} of {min} submessages that were there all the time"));
                        }
                        if err.is_some() && !torn_then() {
                            return viol("refused", format!("operation {i}: {err:?}, though no message was incomplete at any time"));
                        }
                        st.add("streams", 1);
                    }
                    5 => src.0.borrow_mut().write(op.n),
                    _ => {
                        let k = op.n as usize % handles.len().max(1);
                        if let Some((h, p)) = handles.get(k) {
                            if op.kind == 4 {
                                check_listing(h, p).map_err(tag)?;
                            } else if !p.subs.is_empty() {
                                let m = &p.subs[op.sub as usize % p.subs.len()];
                                let (_, s) = h.iter().nth(op.sub as usize % p.subs.len()).expect("submessage");
                                check_decode(s, m).map_err(tag)?;
                                st.add("decodes_compared", 1);
                            }
                        }
                    }
                }
                grew += u64::from(op.kind != 5 && op.kind != 9 && now() > v0);
            }
            for (h, p) in &handles {
                let tag = |v: Viol| Viol { class: v.class, detail: format!("when the file is complete: {}", v.detail) };
                for ((_, s), m) in h.iter().zip(&p.subs) {
                    src.refill_budget();
                    check_decode(s, m).map_err(tag)?;
                }
            }
            Ok(())
        })();
        open_stats(&src, st);
        st.add("fault:grew_during_an_operation", grew);
        st.nontrivial = grew > 0;
        r
    }
}
