//! C20: handles over one shared source do not disturb one another.

use super::c04::gen_fault;
use super::open_stats;
use crate::enc::*;
use crate::io::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::io::{Read, Seek, SeekFrom};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
struct Op {
    /// 0: decode; 1: decode under faults; 2: set up a decoder, to be consumed later; 3: consume such a decoder;
    /// 4: listing; 5: header metadata, grid indices and coordinates; 6: the owner moves the position; 7: the owner reads; 8: the handle is
    /// opened anew at a message; 9: opening fails; 10: decode while another handle holds a submessage;
    /// 11: another program appends to the file
    kind: u8,
    handle: u8,
    sub: u32,
    n: u32,
    faults: Vec<Fault>,
}

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc {
    file: FileSpec,
    /// delivery of the shared source; `buf` of each handle
    delivery: Delivery,
    bufs: Vec<u32>,
    ops: Vec<Op>,
}

/// What a handle opened at message `k` has to show.
pub fn part(b: &Built, k: usize) -> Built {
    let Some(m) = b.msgs.get(k) else { return Built { bytes: b.bytes.clone(), ..Default::default() } };
    let (s0, u0) = (m.sect0, m.sub0);
    let mut p = Built { bytes: b.bytes.clone(), start: m.off, sects: b.sects[s0..].to_vec(), msgs: b.msgs[k..].to_vec(), subs: b.subs[u0..].to_vec() };
    for m in &mut p.msgs {
        m.sect0 -= s0;
        m.sub0 -= u0;
    }
    for s in &mut p.subs {
        s.idx.0 -= k;
        for x in s.s.iter_mut().flatten() {
            *x -= s0;
        }
    }
    p
}

pub struct C20;

impl Prop for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn count(&self) -> (u64, u64) {
        (200_000, 4_000_000)
    }
    fn fresh(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "a seeded interleaving of up to 40 operations (opening at any message, decoding, listing, failing operations, moves of the shared position, appends to the file) of up to three handles and the owner of one shared source; each fault-free answer is compared with the encoder's; evaluations: operations; non-trivial: operations of different handles alternated; distinct by event-log digest"
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let mut file = gen_small_file(r);
        let m = gen_small_file(r).msgs;
        file.msgs.extend(m);
        let n = 3 + r.below(38);
        let ops = (0..n)
            .map(|_| {
                let kind = *r.pick(&[0u8, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 6, 7, 8, 8, 9, 10, 10, 11]);
                let range = *r.pick(&[2u64, 5, 10, 60]);
                Op {
                    kind,
                    handle: r.below(3) as u8,
                    sub: r.below(24) as u32,
                    n: r.below(1 << 20) as u32,
                    faults: if matches!(kind, 1 | 9) { (0..1 + r.below(2)).map(|_| gen_fault(r, range)).collect() } else { vec![] },
                }
            })
            .collect();
        let bufs = (0..3).map(|_| if r.chance(1, 3) { 1 + r.below(5000) as u32 } else { 0 }).collect();
        serde_json::to_value(Sc { file, delivery: Delivery { buf: 0, ..gen_delivery(r) }, bufs, ops }).unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc = serde_json::from_value(sc.clone()).unwrap_or_default();
        let b = build(&sc.file);
        if b.subs.is_empty() {
            return Ok(());
        }
        let src = Source::new(b.bytes.clone(), b.start, &sc.delivery);
        let mut owner = src.reader(&Delivery::default());
        let mut handles: Vec<Option<(Handle, Built)>> = (0..3).map(|_| None).collect();
        let mut pending: Vec<Option<(grib::Grib2SubmessageDecoder, SubModel)>> = (0..3).map(|_| None).collect();
        let mut last = None;
        let mut switches = 0;
        // before anything is appended, handles cover all of the file
        let mut grown = false;
        st.evals = sc.ops.len() as u64;
        let r = (|| -> Result<(), Viol> {
            for (i, op) in sc.ops.iter().enumerate() {
                let j = usize::from(op.handle) % 3;
                let d = Delivery { buf: sc.bufs.get(j).copied().unwrap_or(0), ..sc.delivery.clone() };
                src.refill_budget();
                let tag = |v: Viol| Viol { class: v.class, detail: format!("operation {i} (handle {j}): {}", v.detail) };
                trace(|| format!("operation {i}: {op:?}"));
                switches += u64::from(last.is_some_and(|l| l != j));
                last = Some(j);
                match op.kind % 12 {
                    6 => {
                        let to = op.n as usize % (b.bytes.len() + 20);
                        owner.seek(SeekFrom::Start(to as u64)).expect("seek");
                        continue;
                    }
                    7 => {
                        let mut x = vec![0; op.n as usize % 40];
                        let _ = owner.read(&mut x);
                        continue;
                    }
                    11 => {
                        src.0.borrow_mut().data.extend(&b.bytes[b.msgs[0].off..][..op.n as usize % b.msgs[0].len]);
                        grown = true;
                        st.add("appends", 1);
                        continue;
                    }
                    _ => {}
                }
                if op.kind % 12 >= 8 && op.kind % 12 <= 9 && !grown || handles[j].is_none() && !grown {
                    let k = op.sub as usize % b.msgs.len();
                    let at = if k == 0 && op.n % 2 == 0 { b.start } else { b.msgs[k].off };
                    owner.seek(SeekFrom::Start(at as u64)).expect("seek");
                    let fired = src.fired();
                    if op.kind % 12 == 9 {
                        src.arm(&op.faults);
                    }
                    let h = grib::from_reader(src.reader(&d));
                    src.disarm();
                    let hit = src.fired() > fired;
                    match h {
                        Ok(h) => {
                            let p = part(&b, k);
                            check_listing(&h, &p).map_err(tag)?;
                            handles[j] = Some((h, p));
                            st.add("opened", 1);
                        }
                        Err(_) if hit => st.add("failed_operations", 1),
                        Err(e) => return viol("open", format!("operation {i}: opening at octet {at} failed without a fault: {e:?}")),
                    }
                    continue;
                }
                if op.kind % 12 == 3 {
                    if let Some((d, m)) = pending[j].take() {
                        let r = d.dispatch().map(|it| it.collect::<Vec<f32>>());
                        judge_decode(r, &m).map_err(tag)?;
                        st.add("decodes_compared", 1);
                    }
                    continue;
                }
                let Some((h, p)) = &handles[j] else { continue };
                let k = op.sub as usize % p.subs.len();
                let m = &p.subs[k];
                let gone = || Viol { class: "listing".into(), detail: format!("operation {i}: submessage {k} of handle {j} is gone") };
                let fired = src.fired();
                match op.kind % 12 {
                    0 | 1 | 10 => {
                        // a submessage of another handle is held meanwhile
                        let other = if op.kind % 12 == 10 { handles[(j + 1) % 3].as_ref().and_then(|(h, _)| h.iter().next()) } else { None };
                        let (_, s) = h.iter().nth(k).ok_or_else(gone)?;
                        if op.kind % 12 == 1 {
                            src.arm(&op.faults);
                        }
                        let r = decode(s);
                        src.disarm();
                        match r {
                            Err(_) if src.fired() > fired => st.add("failed_operations", 1),
                            r => {
                                judge_decode(r, m).map_err(tag)?;
                                st.add("decodes_compared", 1);
                            }
                        }
                        if let Some((idx, s)) = other {
                            let m = &handles[(j + 1) % 3].as_ref().unwrap().1.subs[0];
                            if idx != m.idx {
                                return viol("listing", format!("operation {i}: the submessage held has index {idx:?}"));
                            }
                            check_decode(s, m).map_err(tag)?;
                        }
                    }
                    2 => {
                        let (_, s) = h.iter().nth(k).ok_or_else(gone)?;
                        match grib::Grib2SubmessageDecoder::from(s) {
                            Ok(d) => pending[j] = Some((d, m.clone())),
                            Err(_) if matches!(m.expect, Expect::Refused) => {}
                            Err(e) => return viol("refused", format!("operation {i}: {:?} was refused: {e:?}", m.idx)),
                        }
                    }
                    4 => check_listing(h, p).map_err(tag)?,
                    5 => {
                        let (_, s) = h.iter().nth(k).ok_or_else(gone)?;
                        check_index(m.idx, &s, m, p).map_err(tag)?;
                        check_meta(&s, m, &p.msgs[m.idx.0]).map_err(tag)?;
                        check_coords(&s, m).map_err(tag)?;
                    }
                    _ => {}
                }
            }
            for (j, x) in handles.iter().enumerate() {
                let Some((h, p)) = x else { continue };
                let tag = |v: Viol| Viol { class: v.class, detail: format!("at the end, handle {j}: {}", v.detail) };
                check_listing(h, p).map_err(tag)?;
                for ((_, s), m) in h.iter().zip(&p.subs) {
                    src.refill_budget();
                    check_decode(s, m).map_err(tag)?;
                }
            }
            Ok(())
        })();
        open_stats(&src, st);
        st.add("handle_switches", switches);
        st.nontrivial = switches > 0;
        r
    }
}
