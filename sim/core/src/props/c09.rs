//! C09 assembly of submessages from sections, against the reference grammar.

use super::open_stats;
use crate::io::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::runner::*;
use grib::{Grib2SubmessageStream, GribError, ParseError, SectionInfo};
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc {
    /// section numbers; 100+k: upstream error k
    evs: Vec<u8>,
    /// as bytes through the real reader instead of a synthetic stream
    bytes: bool,
    delivery: Delivery,
    faults: Vec<Fault>,
    /// junk between messages (bytes only)
    junk: u32,
}

fn upstream(k: usize) -> ParseError {
    match k % 7 {
        0 => ParseError::ReadError(format!("simulated failure {k}")),
        1 => ParseError::NotGRIB,
        2 => ParseError::GRIBVersionMismatch(k as u8),
        3 => ParseError::UnknownSectionNumber(k as u8),
        4 => ParseError::EndSectionMismatch,
        5 => ParseError::UnexpectedEndOfData(k + 1000),
        _ => ParseError::InvalidSectionOrder(k + 1000),
    }
}

pub struct C09;

fn random_walk(r: &mut Rng) -> Vec<u8> {
    // mostly grammatical sequences with a few defects, so that deep states are reached
    let mut v = vec![];
    let err = |r: &mut Rng| 100 + r.below(40) as u8;
    let msgs = r.below(5);
    for _ in 0..msgs {
        v.push(0);
        v.push(1);
        let mut grid = false;
        for s in 0..1 + r.below(4) {
            let from = if s == 0 { *r.pick(&[2u8, 3, 3]) } else { *r.pick(&[2u8, 3, 4, 4]) };
            let from = if r.chance(1, 20) { 4 } else { from };
            for n in from..=7 {
                v.push(n);
            }
            grid |= from <= 3;
        }
        let _ = grid;
        v.push(8);
    }
    let edits = *r.pick(&[0u64, 1, 1, 1, 2, 3]);
    for _ in 0..edits {
        let n = v.len();
        if n == 0 {
            v.push(r.below(10) as u8);
            continue;
        }
        let p = r.us(n + 1);
        match r.below(8) {
            0 => v.truncate(p),
            1 => v.insert(p, r.below(10) as u8),
            2 => v.insert(p, err(r)),
            3 if p < n => {
                v.remove(p);
            }
            4 if p < n => v[p] = r.below(10) as u8,
            5 if p < n => v[p] = err(r),
            6 if p + 1 < n => v.swap(p, p + 1),
            _ => {
                let q = p + r.us(n - p + 1);
                let c = v[p..q].to_vec();
                let at = r.us(v.len() + 1);
                v.splice(at..at, c);
            }
        }
    }
    if r.chance(1, 6) {
        v = (0..r.below(12)).map(|_| if r.chance(1, 12) { err(r) } else { r.below(10) as u8 }).collect();
    }
    v
}

impl C09 {
    fn synthetic(&self, sc: &Sc, st: &mut Stats) -> Result<(), Viol> {
        let evs: Vec<Ev> = sc.evs.iter().map(|&e| if e >= 100 { Ev::Fail(usize::from(e - 100)) } else { Ev::Sect(e) }).collect();
        let sect = |pos: usize, num: u8| SectionInfo { num, offset: 7 + pos * 13, size: 3 + pos * 5, body: None };
        let pulled = std::cell::Cell::new(0usize);
        let items = evs.iter().enumerate().map(|(i, e)| {
            pulled.set(i + 1);
            match e {
                Ev::Sect(n) => Ok(sect(i, *n)),
                Ev::Fail(k) => Err(upstream(*k)),
            }
        });
        let (exp, err) = assemble(&evs);
        let mut it = Grib2SubmessageStream::new(items);
        for e in &exp {
            let (mi, si, s) = match it.next() {
                Some(Ok(x)) => x,
                o => return viol("assembly", format!("{:?} yields {:?} instead of submessage {:?}", sc.evs, o.map(|r| r.map(|x| (x.0, x.1))), e.idx)),
            };
            if (mi, si) != e.idx {
                return viol("index", format!("{:?}: submessage {:?} numbered {:?}", sc.evs, e.idx, (mi, si)));
            }
            let got = [Some(&s.0), Some(&s.1), s.2.as_ref(), Some(&s.3), Some(&s.4), Some(&s.5), Some(&s.6), Some(&s.7), Some(&s.8)];
            for (k, g) in got.iter().enumerate() {
                let want = match (k, e.s[k]) {
                    (8, None) => Some(SectionInfo { num: 8, offset: 0, size: 4, body: None }),
                    (_, p) => p.map(|p| sect(p, k as u8)),
                };
                if *g != want.as_ref() {
                    return viol("section", format!("{:?}: section {k} of submessage {:?} is {g:?}, expected {want:?}", sc.evs, e.idx));
                }
            }
            st.mix((mi * 100 + si) as u64);
        }
        let fin = it.next();
        match (&fin, &err) {
            (None, None) => {}
            (Some(Err(g)), Some(AsmErr::Upstream(k))) if *g == upstream(*k) => {}
            (Some(Err(g)), Some(e)) if asm_err_matches(g, e) => {}
            (g, e) => return viol("error", format!("{:?}: ends with {:?}, expected {e:?}", sc.evs, g.as_ref().map(|r| r.as_ref().map(|x| (x.0, x.1))))),
        }
        st.mix_str(&format!("{err:?}"));
        if let Some(AsmErr::Upstream(_)) = err {
            st.add("fault:upstream_error", 1);
        }
        st.add("submessages", exp.len() as u64);
        st.nontrivial = !exp.is_empty() || err.is_some();
        // exactly one error, and nothing afterwards
        for _ in 0..evs.len() + 3 {
            if let Some(x) = it.next() {
                return viol("after-error", format!("{:?}: yields {:?} after its end", sc.evs, x.map(|x| (x.0, x.1))));
            }
        }
        st.mix(pulled.get() as u64);
        Ok(())
    }

    fn as_bytes(&self, sc: &Sc, st: &mut Stats) -> Result<(), Viol> {
        // messages are the maximal runs between sections 0 and 8; anything else cannot be written as a file
        let mut bytes = vec![];
        let mut evs = vec![];
        let mut sects = vec![];
        let mut i = 0;
        let e = &sc.evs;
        let mut bad = None;
        while i < e.len() && bad.is_none() {
            if e[i] != 0 {
                i += 1;
                continue;
            }
            bytes.extend(crate::enc::junk(2, sc.junk.min(5000) as usize, i as u64));
            let off = bytes.len();
            evs.push(Ev::Sect(0));
            sects.push((0u8, off, 16));
            bytes.extend_from_slice(b"GRIB\0\0\x02\x02");
            bytes.extend_from_slice(&[0; 8]);
            i += 1;
            while i < e.len() && e[i] != 8 && e[i] != 0 {
                let n = e[i] % 100;
                let n = if n > 9 { 1 + n % 7 } else { n };
                let p: Vec<u8> = match n {
                    1 => vec![0, 7, 0, 0, 2, 1, 1, 7, 0xe5, 1, 2, 3, 4, 5, 0, 1],
                    3 => vec![0, 0, 0, 0, 4, 0, 0, 0, 101, 0, 0, 0, 0, 0],
                    4 => vec![0, 0, 0, 0, 1, 2, 2, 0, 96, 0, 0, 0, 1, 0, 0, 0, 6, 103, 0, 0, 0, 0, 2, 255, 0, 0, 0, 0, 0],
                    5 => vec![0, 0, 0, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0],
                    6 => vec![255],
                    7 => vec![1, 2, 3, 4],
                    _ => vec![i as u8; 3],
                };
                sects.push((n, bytes.len(), p.len() + 5));
                bytes.extend(((p.len() + 5) as u32).to_be_bytes());
                bytes.push(n);
                bytes.extend(p);
                if (1..=7).contains(&n) {
                    evs.push(Ev::Sect(n));
                } else {
                    bad = Some(n);
                    break;
                }
                i += 1;
            }
            if i < e.len() && e[i] == 8 {
                i += 1;
            }
            evs.push(Ev::Sect(8));
            sects.push((8, bytes.len(), 4));
            bytes.extend_from_slice(b"7777");
            let len = (bytes.len() - off) as u64;
            bytes[off + 8..off + 16].copy_from_slice(&len.to_be_bytes());
        }
        if bad.is_some() {
            let n = evs.len();
            evs[n - 1] = Ev::Fail(0);
        }
        if evs.is_empty() {
            return Ok(());
        }
        let (exp, err) = assemble(&evs);
        let src = Source::new(bytes.clone(), 0, &sc.delivery);
        src.arm(&sc.faults);
        let r = grib::from_reader(src.reader(&sc.delivery));
        let faults = src.fired();
        let res = match (&r, &err) {
            (Err(GribError::ParseError(ParseError::ReadError(_))), _) if faults > 0 => Ok(()),
            (Ok(h), None) => {
                let got: Vec<_> = h.iter().map(|(i, s)| (i, [Some(s.0.index), Some(s.1.index), s.2.as_ref().map(|x| x.index), Some(s.3.index), Some(s.4.index), Some(s.5.index), Some(s.6.index), Some(s.7.index)])).collect();
                let want: Vec<_> = exp.iter().map(|a| (a.idx, [a.s[0], a.s[1], a.s[2], a.s[3], a.s[4], a.s[5], a.s[6], a.s[7]])).collect();
                let gs: Vec<_> = h.sections().map(|s| (s.num, s.offset, s.size)).collect();
                if got != want {
                    viol("assembly", format!("{evs:?} is listed as {got:?}, expected {want:?}"))
                } else if gs != sects {
                    viol("assembly", format!("sections {gs:?}, expected {sects:?}"))
                } else {
                    Ok(())
                }
            }
            (Err(GribError::ParseError(p)), Some(AsmErr::Upstream(_))) if bad.is_some_and(|n| *p == ParseError::UnknownSectionNumber(n)) => Ok(()),
            (Err(GribError::ParseError(p)), Some(e)) if asm_err_matches(p, e) => Ok(()),
            (r, e) => viol("error", format!("{evs:?}: opening gives {:?}, expected {e:?}", r.as_ref().map(|h| h.len()).map_err(|e| format!("{e:?}")))),
        };
        st.add("submessages", exp.len() as u64);
        st.mix_str(&format!("{evs:?}{err:?}"));
        open_stats(&src, st);
        st.nontrivial = true;
        res
    }
}

impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn count(&self) -> (u64, u64) {
        (4_000_000, 90_000_000)
    }
    fn rule(&self) -> &'static str {
        "a seeded sequence of sections and upstream errors, mostly grammatical with a few defects (or read from bytes through the real reader under a delivery and fault schedule), is fed to the assembler and its answers are compared one by one with a reference grammar; non-trivial: at least one submessage or one error; distinct by answers"
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let bytes = idx % 4 == 3;
        serde_json::to_value(Sc {
            evs: random_walk(r),
            bytes,
            delivery: if bytes { gen_delivery(r) } else { Delivery::default() },
            faults: if bytes && r.chance(1, 6) { vec![super::c04::gen_fault(r, 60)] } else { vec![] },
            junk: if bytes && r.chance(1, 4) { r.below(5000) as u32 } else { 0 },
        })
        .unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc = serde_json::from_value(sc.clone()).unwrap_or_default();
        if sc.bytes {
            self.as_bytes(&sc, st)
        } else {
            self.synthetic(&sc, st)
        }
    }
}
