//! C04 failing reads and seeks, C05 histories of operations on one handle.

use super::open_stats;
use crate::enc::*;
use crate::io::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use grib::{Grib2SectionStream, Grib2SubmessageStream, SeekableGrib2Reader};
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc04 {
    file: FileSpec,
    delivery: Delivery,
    /// 0: open, 1: decode after a clean opening, 2: section stream, 3: submessage stream, 4: open and decode
    phase: u8,
    sub: u32,
    faults: Vec<Fault>,
    /// repeat with the first fault at every operation
    every: bool,
}

pub fn gen_fault(r: &mut Rng, ops: u64) -> Fault {
    Fault {
        at: match r.below(4) {
            0 => r.below(4) as u32,
            _ => r.below(ops) as u32,
        },
        kind: r.below(KINDS.len() as u64) as u8,
        times: *r.pick(&[0u32, 0, 1, 1, 2, 5]),
    }
}

pub struct C04;

impl C04 {
    fn one(&self, sc: &Sc04, b: &Built, faults: &[Fault], st: &mut Stats) -> Result<u64, Viol> {
        let src = Source::new(b.bytes.clone(), b.start, &sc.delivery);
        st.evals += 1;
        let r = self.phase(sc, b, faults, &src, st);
        let ops = src.ops();
        open_stats(&src, st);
        r.map(|_| ops)
    }
    fn decode_one(&self, h: &Handle, b: &Built, k: usize, src: &Source, st: &mut Stats) -> Result<(), Viol> {
        let m = &b.subs[k];
        let Some((_, s)) = h.iter().nth(k) else { return viol("listing", format!("submessage {k} is not there")) };
        src.refill_budget();
        let before = src.fired();
        let r = decode(s);
        let hit = src.fired() > before;
        match (r, &m.expect) {
            (Err(_), Expect::Refused) => Ok(()),
            (Err(_), _) if hit => {
                st.add("surfaced_as_error", 1);
                Ok(())
            }
            (Ok(v), Expect::Values(e)) => {
                if hit {
                    st.add("masked_with_right_answer", 1);
                }
                compare_values(&v, e, m.idx).map_err(|v| Viol { class: format!("decode-{}", v.class), detail: format!("{} ({} faults during the decoding)", v.detail, src.fired() - before) })
            }
            (r, _) => judge_decode(r, m),
        }
    }
    fn phase(&self, sc: &Sc04, b: &Built, faults: &[Fault], src: &Source, st: &mut Stats) -> Result<(), Viol> {
        let rd = src.reader(&sc.delivery);
        let phase = sc.phase % 5;
        if phase == 0 || phase == 4 {
            src.arm(faults);
            let r = grib::from_reader(rd);
            match r {
                Err(e) => {
                    src.note(1);
                    if src.fired() == 0 && !b.msgs.is_empty() {
                        return viol("refused", format!("no fault happened but opening failed: {e:?}"));
                    }
                    st.add("surfaced_as_error", u64::from(src.fired() > 0));
                    Ok(())
                }
                Ok(h) => {
                    src.note(2);
                    if src.fired() > 0 {
                        st.add("masked_with_right_answer", 1);
                    }
                    check_listing(&h, b).map_err(|v| Viol { class: "short".into(), detail: format!("opened without an error although {} calls failed: {}", src.fired(), v.detail) })?;
                    if phase == 4 {
                        for k in 0..b.subs.len() {
                            self.decode_one(&h, b, k, src, st)?;
                        }
                    }
                    Ok(())
                }
            }
        } else if phase == 1 {
            let h = match grib::from_reader(rd) {
                Ok(h) => h,
                Err(_) if b.msgs.is_empty() => return Ok(()),
                Err(e) => return viol("refused", format!("well-formed file refused: {e:?}")),
            };
            if b.subs.is_empty() {
                return Ok(());
            }
            src.arm(faults);
            self.decode_one(&h, b, sc.sub as usize % b.subs.len(), src, st)
        } else if phase == 2 {
            src.arm(faults);
            let mut n = 0;
            for s in Grib2SectionStream::new(SeekableGrib2Reader::new(rd)) {
                match s {
                    Err(e) => {
                        if src.fired() == 0 {
                            return viol("refused", format!("no fault happened but the section stream failed: {e:?}"));
                        }
                        st.add("surfaced_as_error", 1);
                        return Ok(());
                    }
                    Ok(s) => {
                        let Some(e) = b.sects.get(n) else { return viol("short", "too many sections".to_string()) };
                        if (s.num, s.offset, s.size) != (e.num, e.off, e.size) {
                            return viol("short", format!("section stream yields {s:?} as entry {n}, file has {e:?}"));
                        }
                        if let Err(m) = body_matches(&s, &b.bytes) {
                            return viol("short", m);
                        }
                    }
                }
                n += 1;
            }
            if n != b.sects.len() {
                return viol("short", format!("section stream ended after {n} of {} sections without an error; {} calls failed", b.sects.len(), src.fired()));
            }
            Ok(())
        } else {
            src.arm(faults);
            let mut n = 0;
            for s in Grib2SubmessageStream::new(Grib2SectionStream::new(SeekableGrib2Reader::new(rd))) {
                match s {
                    Err(e) => {
                        if src.fired() == 0 {
                            return viol("refused", format!("no fault happened but the submessage stream failed: {e:?}"));
                        }
                        st.add("surfaced_as_error", 1);
                        return Ok(());
                    }
                    Ok((mi, si, s)) => {
                        let Some(m) = b.subs.get(n) else { return viol("short", "too many submessages".to_string()) };
                        let off = |k: usize| m.s[k].map(|i| b.sects[i].off);
                        if (mi, si) != m.idx || Some(s.0.offset) != off(0) || Some(s.3.offset) != off(3) || Some(s.7.offset) != off(7) {
                            return viol("short", format!("submessage stream yields {:?} as entry {n}, expected {:?}", (mi, si), m.idx));
                        }
                    }
                }
                n += 1;
            }
            if n != b.subs.len() {
                return viol("short", format!("submessage stream ended after {n} of {} submessages without an error; {} calls failed", b.subs.len(), src.fired()));
            }
            Ok(())
        }
    }
}

impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn count(&self) -> (u64, u64) {
        (220_000, 4_500_000)
    }
    fn rule(&self) -> &'static str {
        "opening, decoding or streaming a small well-formed file while one read or seek call (every one in turn, or seeded ones) fails with a seeded error, once, several times or for good; evaluations: executions; non-trivial: a fault was delivered; distinct by event-log digest"
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let file = gen_small_file(r);
        let every = idx % 3 == 0;
        let mut delivery = gen_delivery(r);
        if every && r.chance(3, 4) {
            delivery.chunks = vec![];
            delivery.buf = *r.pick(&[0, 0, 64, 8192]);
        }
        let n = 1 + r.below(3);
        let range = *r.pick(&[4u64, 12, 40, 200, 2000]);
        serde_json::to_value(Sc04 {
            file,
            delivery,
            phase: *r.pick(&[0u8, 0, 1, 1, 2, 3, 4]),
            sub: r.below(16) as u32,
            faults: (0..n).map(|_| gen_fault(r, range)).collect(),
            every,
        })
        .unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc04 = serde_json::from_value(sc.clone()).unwrap_or_default();
        let b = build(&sc.file);
        st.evals = 0;
        if !sc.every {
            self.one(&sc, &b, &sc.faults, st)?;
            return Ok(());
        }
        let n = self.one(&sc, &b, &[], st)?;
        let step = (n / 400).max(1);
        let mut at = 0;
        while at < n {
            let mut f = sc.faults.first().cloned().unwrap_or_default();
            f.at = at as u32;
            f.kind = (u64::from(f.kind) + at) as u8;
            self.one(&sc, &b, &[f], st)?;
            at += step;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
struct Op {
    /// 0: decode; 1: decode under faults; 2: set up a decoder and take some values; 3: header metadata;
    /// 4: grid indices and coordinates, partly consumed; 5: walk the iterator; 6: listing;
    /// 7: the source loses its tail; 8: the source has its tail back; 9: decode twice from one decoder
    kind: u8,
    sub: u32,
    n: u32,
    faults: Vec<Fault>,
}

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc05 {
    file: FileSpec,
    delivery: Delivery,
    ops: Vec<Op>,
}

pub struct C05;

impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn count(&self) -> (u64, u64) {
        (450_000, 9_000_000)
    }
    fn rule(&self) -> &'static str {
        "a seeded history of up to 30 operations (decodings, partial iterations, navigations, failing reads, loss and return of the file's tail) on one handle, each fault-free answer compared with the encoder's, and everything decoded again at the end; evaluations: operations; non-trivial: at least one fault or truncation hit an operation and a later decode was compared; distinct by event-log digest"
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let mut file = gen_small_file(r);
        if r.chance(1, 2) {
            let m = gen_small_file(r).msgs;
            file.msgs.extend(m);
        }
        let n = 2 + r.below(28);
        let ops = (0..n)
            .map(|_| {
                let kind = *r.pick(&[0u8, 0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9]);
                let range = *r.pick(&[2u64, 5, 10, 60]);
                Op {
                    kind,
                    sub: r.below(24) as u32,
                    n: r.below(1 << 20) as u32,
                    faults: if matches!(kind, 1) || (kind == 2 && r.chance(1, 3)) { (0..1 + r.below(2)).map(|_| gen_fault(r, range)).collect() } else { vec![] },
                }
            })
            .collect();
        serde_json::to_value(Sc05 { file, delivery: gen_delivery(r), ops }).unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc05 = serde_json::from_value(sc.clone()).unwrap_or_default();
        let b = build(&sc.file);
        if b.subs.is_empty() {
            return Ok(());
        }
        let src = Source::new(b.bytes.clone(), b.start, &sc.delivery);
        let h = match grib::from_reader(src.reader(&sc.delivery)) {
            Ok(h) => h,
            Err(e) => return viol("refused", format!("well-formed file refused: {e:?}")),
        };
        let nsub = b.subs.len();
        let mut disturbed = false;
        let mut compared = false;
        let mut lost = false;
        st.evals = sc.ops.len() as u64;
        let r = (|| -> Result<(), Viol> {
            for (i, op) in sc.ops.iter().enumerate() {
                let k = op.sub as usize % nsub;
                let m = &b.subs[k];
                src.refill_budget();
                let fired = src.fired();
                let get = || h.iter().nth(k).map(|x| x.1);
                let tag = |v: Viol| Viol { class: v.class, detail: format!("operation {i}: {}", v.detail) };
                trace(|| format!("operation {i}: {op:?}"));
                match op.kind % 10 {
                    0 | 1 => {
                        if op.kind % 10 == 1 {
                            src.arm(&op.faults);
                        }
                        let Some(s) = get() else { return viol("listing", format!("operation {i}: submessage {k} is gone")) };
                        let r = decode(s);
                        src.disarm();
                        let hit = src.fired() > fired || lost;
                        disturbed |= hit;
                        match r {
                            Err(_) if hit => st.add("failed_operations", 1),
                            r => {
                                judge_decode(r, m).map_err(tag)?;
                                st.add("decodes_compared", 1);
                                compared |= disturbed;
                            }
                        }
                    }
                    2 | 9 => {
                        src.arm(&op.faults);
                        let Some(s) = get() else { return viol("listing", format!("operation {i}: submessage {k} is gone")) };
                        let d = grib::Grib2SubmessageDecoder::from(s);
                        src.disarm();
                        let hit = src.fired() > fired || lost;
                        disturbed |= hit;
                        let d = match d {
                            Err(_) if hit || matches!(m.expect, Expect::Refused) => {
                                st.add("failed_operations", u64::from(hit));
                                continue;
                            }
                            Err(e) => return viol("refused", format!("operation {i}: {:?} was refused: {e:?}", m.idx)),
                            Ok(d) => d,
                        };
                        let Expect::Values(e) = &m.expect else {
                            if d.dispatch().is_ok() {
                                return viol("not-refused", format!("operation {i}: {:?} is not supported but was decoded", m.idx));
                            }
                            continue;
                        };
                        for round in 0..1 + op.kind % 10 / 9 {
                            let it = d.dispatch().map_err(|x| Viol { class: "refused".into(), detail: format!("operation {i}: {x:?}") })?;
                            let n = if round == 0 && op.kind % 10 == 2 { op.n as usize % (e.len() + 2) } else { e.len() + 1 };
                            let v: Vec<f32> = it.take(n).collect();
                            let n = n.min(e.len());
                            if v.len() != n {
                                return viol("count", format!("operation {i}: {} values of {n} from {:?}", v.len(), m.idx));
                            }
                            compare_values(&v, &e[..n], m.idx).map_err(tag)?;
                        }
                        st.add("decodes_compared", 1);
                        compared |= disturbed;
                    }
                    3 => {
                        let Some(s) = get() else { return viol("listing", format!("operation {i}: submessage {k} is gone")) };
                        check_index(m.idx, &s, m, &b).map_err(tag)?;
                        check_meta(&s, m, &b.msgs[m.idx.0]).map_err(tag)?;
                    }
                    4 => {
                        let Some(s) = get() else { return viol("listing", format!("operation {i}: submessage {k} is gone")) };
                        let exp = ij_model(&m.grid);
                        match (s.ij(), &exp) {
                            (Err(_), None) => {}
                            (Ok(it), Some(e)) => {
                                let n = op.n as usize % (e.len() + 2);
                                if !it.take(n).eq(e.iter().take(n).copied()) {
                                    return viol("indices", format!("operation {i}: grid indices of {:?} differ", m.idx));
                                }
                            }
                            (x, e) => return viol("indices", format!("operation {i}: ij() of {:?} (ok: {}), expected {}", m.idx, x.is_ok(), e.is_some())),
                        }
                        if let Ok(it) = s.latlons() {
                            let _ = it.take(op.n as usize % 50).count();
                        }
                    }
                    5 => {
                        let n = op.n as usize % (nsub + 2);
                        let got: Vec<_> = h.iter().skip(k).take(n).map(|x| x.0).collect();
                        let exp: Vec<_> = b.subs[k..].iter().take(n).map(|s| s.idx).collect();
                        if got != exp {
                            return viol("listing", format!("operation {i}: walking from {k} yields {got:?}, expected {exp:?}"));
                        }
                    }
                    6 => check_listing(&h, &b).map_err(tag)?,
                    7 => {
                        let keep = b.bytes.len() * (op.n as usize % 1000) / 1000;
                        src.0.borrow_mut().data.truncate(keep);
                        lost = true;
                        st.add("fault:tail_lost", 1);
                    }
                    _ => {
                        src.0.borrow_mut().data = b.bytes.clone();
                        lost = false;
                    }
                }
            }
            // a BufReader may keep what it read when the tail was lost; that is not the library's business
            src.0.borrow_mut().data = b.bytes.clone();
            src.disarm();
            check_listing(&h, &b)?;
            for k in 0..nsub {
                src.refill_budget();
                let Some((_, s)) = h.iter().nth(k) else { return viol("listing", format!("submessage {k} is gone")) };
                check_decode(s, &b.subs[k]).map_err(|v| Viol { class: v.class, detail: format!("at the end: {}", v.detail) })?;
                compared |= disturbed;
            }
            Ok(())
        })();
        open_stats(&src, st);
        st.nontrivial = disturbed && compared;
        r
    }
}
