//! C06 submessage iterators as cursors, C07 value and grid-point iterators consumed piecemeal.

use super::open_stats;
use crate::enc::*;
use crate::io::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use grib::{Grib2, Grib2Read, Grib2SubmessageDecoder, Indicator, ParseError, SectionBody, SectionInfo, SeekableGrib2Reader, SubMessage};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::io::{Read, Seek, SeekFrom};

/// A reader of one's own that can be cloned: `SubmessageIterator` is `Clone` only for such readers.
#[derive(Clone)]
struct CloneRd(Source);

impl CloneRd {
    fn rd(&self) -> SeekableGrib2Reader<Rd> {
        SeekableGrib2Reader::new(self.0.reader(&Delivery::default()))
    }
}
impl Read for CloneRd {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.rd().read(buf)
    }
}
impl Seek for CloneRd {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.rd().seek(p)
    }
}
impl Grib2Read for CloneRd {
    fn read_sect0(&mut self) -> Result<Option<(usize, Indicator)>, ParseError> {
        self.rd().read_sect0()
    }
    fn read_sect8(&mut self) -> Result<Option<()>, ParseError> {
        self.rd().read_sect8()
    }
    fn read_sect_header(&mut self) -> Result<Option<(usize, u8)>, ParseError> {
        self.rd().read_sect_header()
    }
    fn read_sect_payload(&mut self, header: &(usize, u8)) -> Result<SectionBody, ParseError> {
        self.rd().read_sect_payload(header)
    }
    fn read_sect_payload_as_slice(&mut self, sect: &SectionInfo) -> Result<Box<[u8]>, ParseError> {
        self.rd().read_sect_payload_as_slice(sect)
    }
    fn read_sect6_payload(&mut self, size: usize) -> Result<SectionBody, ParseError> {
        self.rd().read_sect6_payload(size)
    }
    fn skip_sect7_payload(&mut self, size: usize) -> Result<SectionBody, ParseError> {
        self.rd().skip_sect7_payload(size)
    }
    fn read_slice_without_offset_check(&mut self, size: usize) -> Result<Box<[u8]>, ParseError> {
        self.rd().read_slice_without_offset_check(size)
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
struct ItOp {
    op: u8,
    /// which iterator
    it: u32,
    n: u64,
    m: u32,
}

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc06 {
    file: FileSpec,
    delivery: Delivery,
    ops: Vec<ItOp>,
}

fn gen_step(r: &mut Rng, len: u64) -> u64 {
    match r.below(10) {
        0 => 0,
        1 => u64::MAX,
        2 => u64::MAX - r.below(4),
        3 => 1 << 32,
        4 => len + r.below(3),
        5 if len > 100 => r.below(len),
        _ => r.below(3.min(len) + 2),
    }
}

pub struct C06;

type Dig = ((usize, usize), [Option<usize>; 9]);

fn digest_sub<R>(idx: (usize, usize), s: &SubMessage<R>) -> Dig {
    (
        idx,
        [
            Some(s.0.index),
            Some(s.1.index),
            s.2.as_ref().map(|x| x.index),
            Some(s.3.index),
            Some(s.4.index),
            Some(s.5.index),
            Some(s.6.index),
            Some(s.7.index),
            None,
        ],
    )
}

impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn count(&self) -> (u64, u64) {
        (900_000, 18_000_000)
    }
    fn rule(&self) -> &'static str {
        "a seeded interleaving of up to 40 operations (next, nth, skip, step_by, take, clone, re-borrow, size_hint, count, fold) over up to 6 iterators of one handle is compared, answer by answer, with the same operations on cursors over a list; non-trivial: at least two iterators interleaved or one driven beyond its end; distinct by operations and answers"
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let mut k = Knobs::pick(r);
        k.max_side = 3;
        k.packs = vec![0];
        k.max_msgs = 4;
        k.max_subs = 4;
        k.big_chance = 0;
        k.junk = false;
        let mut file = gen_file(r, &k);
        if r.chance(1, 12) {
            file.msgs.truncate(0);
        }
        if idx % 5000 == 1000 {
            file = gen_scale(r, idx / 5000 % 2);
        }
        let times = |n: u32| u64::from(n.max(1));
        let len = file.msgs.iter().map(|m| times(m.times) * m.subs.iter().map(|s| times(s.times)).sum::<u64>()).sum::<u64>();
        let n = 2 + r.below(38);
        let ops = (0..n)
            .map(|_| ItOp { op: r.below(14) as u8, it: r.below(6) as u32, n: gen_step(r, len), m: r.below(5) as u32 })
            .collect();
        serde_json::to_value(Sc06 { file, delivery: Delivery::default(), ops }).unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc06 = serde_json::from_value(sc.clone()).unwrap_or_default();
        let b = build(&sc.file);
        let src = Source::new(b.bytes.clone(), b.start, &sc.delivery);
        let h = match Grib2::read(CloneRd(src.clone())) {
            Ok(h) => h,
            Err(_) if b.msgs.is_empty() => return Ok(()),
            Err(e) => return viol("refused", format!("well-formed file refused: {e:?}")),
        };
        let model: Vec<Dig> = b
            .subs
            .iter()
            .map(|m| {
                let mut s = m.s;
                s[8] = None;
                (m.idx, s)
            })
            .collect();
        let mut its = vec![(h.iter(), model.iter().copied())];
        let dig = |x: Option<((usize, usize), SubMessage<CloneRd>)>| x.map(|(i, s)| digest_sub(i, &s));
        let mut used = std::collections::BTreeSet::new();
        st.evals = sc.ops.len() as u64;
        for (i, op) in sc.ops.iter().enumerate() {
            let k = op.it as usize % its.len();
            used.insert(k);
            let n = usize::try_from(op.n).unwrap_or(usize::MAX);
            let m = op.m as usize;
            trace(|| format!("operation {i}: {op:?} on iterator {k}"));
            let (got, exp): (String, String) = match op.op % 14 {
                0 | 1 => {
                    let (a, e) = &mut its[k];
                    (format!("{:?}", dig(a.next())), format!("{:?}", e.next()))
                }
                2 | 3 => {
                    let (a, e) = &mut its[k];
                    (format!("{:?}", dig(a.nth(n))), format!("{:?}", e.nth(n)))
                }
                4 => {
                    let (a, e) = &its[k];
                    (format!("{:?}", a.size_hint()), format!("{:?}", e.size_hint()))
                }
                5 => {
                    let (a, e) = &mut its[k];
                    let a: Vec<_> = a.by_ref().skip(n).take(m).map(|(i, s)| digest_sub(i, &s)).collect();
                    let e: Vec<_> = e.by_ref().skip(n).take(m).collect();
                    (format!("{a:?}"), format!("{e:?}"))
                }
                6 => {
                    let step = n.max(1);
                    let (a, e) = &mut its[k];
                    let a: Vec<_> = a.by_ref().step_by(step).take(m).map(|(i, s)| digest_sub(i, &s)).collect();
                    let e: Vec<_> = e.by_ref().step_by(step).take(m).collect();
                    (format!("{a:?}"), format!("{e:?}"))
                }
                7 => {
                    if its.len() < 6 {
                        let (a, e) = &its[k];
                        let c = (a.clone(), e.clone());
                        its.push(c);
                    }
                    continue;
                }
                8 => {
                    // a re-borrowed iterator continues from the current position without moving it
                    let (a, e) = &its[k];
                    let mut ra = a.into_iter();
                    let mut re = e.clone();
                    let first = (dig(ra.nth(m)), ra.size_hint());
                    let efirst = (re.nth(m), re.size_hint());
                    let rest: Vec<_> = ra.into_iter().map(|(i, s)| digest_sub(i, &s)).collect();
                    let erest: Vec<_> = re.collect();
                    (format!("{first:?} {rest:?}"), format!("{efirst:?} {erest:?}"))
                }
                9 => {
                    let (a, e) = its[k].clone();
                    (format!("{}", a.count()), format!("{}", e.count()))
                }
                10 => {
                    if its.len() < 6 {
                        its.push((if m % 2 == 0 { h.submessages() } else { (&h).into_iter() }, model.iter().copied()));
                    }
                    continue;
                }
                11 => {
                    if its.len() > 1 {
                        drop(its.swap_remove(k));
                    }
                    continue;
                }
                12 => {
                    let (a, e) = its[k].clone();
                    let a: Vec<_> = a.skip(n).step_by(m.max(1)).map(|(i, s)| digest_sub(i, &s)).collect();
                    let e: Vec<_> = e.skip(n).step_by(m.max(1)).collect();
                    (format!("{a:?}"), format!("{e:?}"))
                }
                _ => {
                    let (a, e) = &mut its[k];
                    // decode what the cursor stands on while the others exist
                    match a.next() {
                        None => (format!("{:?}", None::<u8>), format!("{:?}", e.next().map(|_| 1u8))),
                        Some((i, s)) => {
                            let d = digest_sub(i, &s);
                            let pos = model.iter().position(|x| *x == d);
                            let r = Grib2SubmessageDecoder::from(s).and_then(|d| d.dispatch().map(|v| v.collect::<Vec<f32>>()));
                            if let Some(p) = pos {
                                judge_decode(r, &b.subs[p])?;
                            }
                            (format!("{:?}", Some(d)), format!("{:?}", e.next()))
                        }
                    }
                }
            };
            st.mix_str(&got);
            st.mix(op.op.into());
            if got != exp {
                return viol("cursor", format!("operation {i} ({op:?}) of iterator {k} gives {got}, a cursor gives {exp}"));
            }
            if exp == "None" {
                st.nontrivial = true;
                st.add("driven_past_the_end", 1);
            }
            // the position is visible in the hint after every operation
            let (a, e) = &its[k];
            if a.size_hint() != e.size_hint() {
                return viol("hint", format!("after operation {i} ({op:?}) size_hint is {:?}, {:?} items are left", a.size_hint(), e.size_hint().0));
            }
        }
        st.nontrivial |= used.len() > 1;
        let d = st.digest;
        open_stats(&src, st);
        st.mix(d);
        st.add("operations", sc.ops.len() as u64);
        Ok(())
    }
}

// ---------------------------------------------------------------- C07

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc07 {
    file: FileSpec,
    delivery: Delivery,
    ops: Vec<ItOp>,
}

enum It<'a> {
    V(Box<dyn Iterator<Item = f32> + 'a>),
    Ij(grib::GridPointIndexIterator),
    Ll(grib::GridPointIterator),
}

struct Cur<'a> {
    it: It<'a>,
    sub: usize,
    pos: usize,
}

#[derive(Debug, Clone, Copy)]
enum Item {
    V(f32),
    Ij((usize, usize)),
    Ll((f32, f32)),
}

impl It<'_> {
    fn next(&mut self) -> Option<Item> {
        match self {
            It::V(i) => i.next().map(Item::V),
            It::Ij(i) => i.next().map(Item::Ij),
            It::Ll(i) => i.next().map(Item::Ll),
        }
    }
    fn nth(&mut self, n: usize) -> Option<Item> {
        match self {
            It::V(i) => i.nth(n).map(Item::V),
            It::Ij(i) => i.nth(n).map(Item::Ij),
            It::Ll(i) => i.nth(n).map(Item::Ll),
        }
    }
    fn hint(&self) -> (usize, Option<usize>) {
        match self {
            It::V(i) => i.size_hint(),
            It::Ij(i) => i.size_hint(),
            It::Ll(i) => i.size_hint(),
        }
    }
    fn take(&mut self, n: usize) -> Vec<Item> {
        match self {
            It::V(i) => i.take(n).map(Item::V).collect(),
            It::Ij(i) => i.take(n).map(Item::Ij).collect(),
            It::Ll(i) => i.take(n).map(Item::Ll).collect(),
        }
    }
    fn step(&mut self, s: usize, n: usize) -> Vec<Item> {
        match self {
            It::V(i) => i.step_by(s).take(n).map(Item::V).collect(),
            It::Ij(i) => i.step_by(s).take(n).map(Item::Ij).collect(),
            It::Ll(i) => i.step_by(s).take(n).map(Item::Ll).collect(),
        }
    }
}

struct Model {
    n: usize,
    ij: Option<Vec<(usize, usize)>>,
    ll: Option<Vec<(f64, f64)>>,
}

fn item_ok(x: &Item, sub: &SubModel, m: &Model, k: usize) -> Result<(), Viol> {
    match x {
        Item::V(v) => {
            let Expect::Values(e) = &sub.expect else { return Ok(()) };
            if value_ok(*v, &e[k]) {
                Ok(())
            } else {
                viol("value", format!("value {k} of {:?} is {v}, encoded {:?}", sub.idx, e[k]))
            }
        }
        Item::Ij(p) => match m.ij.as_ref().map(|v| v[k]) {
            Some(e) if e == *p => Ok(()),
            e => viol("index", format!("grid index {k} of {:?} is {p:?}, expected {e:?} (scanning mode {:#x}, {} x {})", sub.idx, sub.grid.scan, sub.grid.ni, sub.grid.nj)),
        },
        Item::Ll((la, lo)) => match m.ll.as_ref().map(|v| v[k]) {
            Some((ela, elo)) if (f64::from(*la) - ela).abs() < 2e-4 && lon_close((*lo).into(), elo) => Ok(()),
            e => viol("coordinate", format!("coordinate {k} of {:?} is {:?}, expected {e:?} (grid {:?})", sub.idx, (la, lo), sub.grid)),
        },
    }
}

pub struct C07;

impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn count(&self) -> (u64, u64) {
        (500_000, 10_000_000)
    }
    fn rule(&self) -> &'static str {
        "a seeded interleaving of up to 40 operations (next, nth, skip, step_by, take, clone, drop, re-dispatch, size_hint, count) over up to 8 value, grid-index and coordinate iterators of one file; every item is compared with the encoder's model at its position; non-trivial: at least two iterators interleaved; distinct by operations and answers"
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let mut k = Knobs::pick(r);
        k.max_side = *r.pick(&[3u64, 6, 9, 25]);
        k.max_msgs = 2;
        k.max_subs = 2;
        k.unsupported = false;
        if idx % 2 == 0 {
            k.grids = vec![*r.pick(&[0u16, 0, 40, 30])];
        }
        let mut file = gen_file(r, &k);
        let mut npts = 1 + k.max_side * k.max_side;
        let mut delivery = gen_delivery(r);
        if idx % 500 == 300 {
            (file, delivery, npts) = (gen_scale(r, 4), gen_delivery_large(r), 75_000);
        }
        let n = 3 + r.below(38);
        let ops = (0..n)
            .map(|_| ItOp {
                op: r.below(14) as u8,
                it: r.below(12) as u32,
                n: match r.below(8) {
                    0 => u64::MAX,
                    1 => r.below(npts * 2),
                    2 => r.below(npts),
                    _ => r.below(6),
                },
                m: r.below(64) as u32,
            })
            .collect();
        serde_json::to_value(Sc07 { file, delivery, ops }).unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc07 = serde_json::from_value(sc.clone()).unwrap_or_default();
        let b = build(&sc.file);
        if b.subs.is_empty() {
            return Ok(());
        }
        let src = Source::new(b.bytes.clone(), b.start, &sc.delivery);
        let h = grib::from_reader(src.reader(&sc.delivery)).map_err(|e| Viol { class: "refused".into(), detail: format!("{e:?}") })?;
        let mut decs = vec![];
        let mut grids = vec![];
        let mut models = vec![];
        for (s, m) in h.iter().map(|x| x.1).zip(&b.subs) {
            let md = Model { n: m.npts, ij: ij_model(&m.grid), ll: latlon_model(&m.grid) };
            let (ij, ll) = (s.ij(), s.latlons());
            if ij.is_ok() != md.ij.is_some() || ll.is_ok() != md.ll.is_some() {
                return viol("grid", format!("{:?}: ij {:?}, latlons {:?} (grid {:?})", m.idx, ij.err(), ll.err(), m.grid));
            }
            grids.push((ij.ok(), ll.ok()));
            models.push(md);
            src.refill_budget();
            let d = match (Grib2SubmessageDecoder::from(s), &m.expect) {
                (Ok(d), Expect::Values(_)) => Some(d),
                (Err(e), Expect::Values(_)) => return viol("refused", format!("{:?}: {e:?}", m.idx)),
                _ => None,
            };
            decs.push(d);
        }
        open_stats(&src, st);
        st.nontrivial = false;
        let mut curs: Vec<Cur> = vec![];
        let mut used = std::collections::BTreeSet::new();
        st.evals = sc.ops.len() as u64;
        for (i, op) in sc.ops.iter().enumerate() {
            let n = usize::try_from(op.n).unwrap_or(usize::MAX);
            trace(|| format!("operation {i}: {op:?}"));
            let code = if curs.is_empty() { 0 } else { op.op % 14 };
            st.mix(code.into());
            if code <= 1 {
                if curs.len() >= 8 {
                    continue;
                }
                let sub = op.it as usize % b.subs.len();
                let it = match op.m % 3 {
                    0 => match &decs[sub] {
                        Some(d) => It::V(Box::new(d.dispatch().map_err(|e| Viol { class: "refused".into(), detail: format!("operation {i}: {e:?}") })?)),
                        None => continue,
                    },
                    1 => match &grids[sub].0 {
                        Some(g) => It::Ij(g.clone()),
                        None => continue,
                    },
                    _ => match &grids[sub].1 {
                        Some(g) => It::Ll(g.clone()),
                        None => continue,
                    },
                };
                curs.push(Cur { it, sub, pos: 0 });
                st.add("iterators", 1);
            } else {
                let k = op.it as usize % curs.len();
                used.insert(k);
                let c = &mut curs[k];
                let (m, md) = (&b.subs[c.sub], &models[c.sub]);
                let len = md.n;
                match code {
                    2..=5 => {
                        let skip = if code <= 3 { 0 } else { n };
                        let got = if code <= 3 { c.it.next() } else { c.it.nth(n) };
                        let at = c.pos.saturating_add(skip);
                        c.pos = at.saturating_add(1).min(len);
                        match got {
                            None if at >= len => {}
                            Some(x) if at < len => item_ok(&x, m, md, at)?,
                            x => return viol("length", format!("operation {i}: item {at} of {len} of {:?} is {x:?}", m.idx)),
                        }
                    }
                    6 | 7 => {
                        let n = n.min(len + 2);
                        let v = c.it.take(n);
                        let e = n.min(len - c.pos);
                        if v.len() != e {
                            return viol("length", format!("operation {i}: {} of {e} items taken from {:?}", v.len(), m.idx));
                        }
                        for (j, x) in v.iter().enumerate() {
                            item_ok(x, m, md, c.pos + j)?;
                        }
                        c.pos += e;
                    }
                    8 => {
                        let s = n.clamp(1, len + 3);
                        let cnt = op.m as usize % 5;
                        let v = c.it.step(s, cnt);
                        // take(cnt) of step_by(s): items pos, pos+s, ...; consumption as the standard adaptor does it
                        let mut p = c.pos;
                        for j in 0..cnt {
                            let at = if j == 0 { p } else { p.saturating_add(s - 1) };
                            match v.get(j) {
                                Some(x) if at < len => {
                                    item_ok(x, m, md, at)?;
                                    p = at + 1;
                                }
                                None if at >= len => {
                                    p = len;
                                    break;
                                }
                                x => return viol("length", format!("operation {i}: step_by({s}) item {j} of {:?} (position {at} of {len}) is {x:?}", m.idx)),
                            }
                        }
                        c.pos = p;
                    }
                    9 => {
                        let new = match &c.it {
                            It::Ij(x) => Some(It::Ij(x.clone())),
                            It::Ll(x) => Some(It::Ll(x.clone())),
                            _ => None,
                        };
                        let (sub, pos) = (c.sub, c.pos);
                        if let (Some(it), true) = (new, curs.len() < 8) {
                            curs.push(Cur { it, sub, pos });
                        }
                        continue;
                    }
                    10 => {
                        curs.swap_remove(k);
                        continue;
                    }
                    11 => {
                        // consume the rest
                        let v = c.it.take(usize::MAX);
                        if v.len() != len - c.pos {
                            return viol("length", format!("operation {i}: {} items left in {:?}, expected {}", v.len(), m.idx, len - c.pos));
                        }
                        for (j, x) in v.iter().enumerate() {
                            item_ok(x, m, md, c.pos + j)?;
                        }
                        c.pos = len;
                        if c.it.next().is_some() || c.it.next().is_some() {
                            return viol("length", format!("operation {i}: an exhausted iterator of {:?} yields again", m.idx));
                        }
                    }
                    _ => {}
                }
                let h = c.it.hint();
                st.mix(h.0 as u64);
                if h != (len - c.pos, Some(len - c.pos)) {
                    return viol("hint", format!("after operation {i} ({op:?}): size_hint is {h:?} but {} of {len} items are left in {:?} (template {})", len - c.pos, m.idx, m.repr));
                }
            }
        }
        // alignment: all three in lockstep for one submessage
        for (sub, m) in b.subs.iter().enumerate() {
            let (Some(d), Some(ij), Some(ll)) = (&decs[sub], grids[sub].0.clone(), grids[sub].1.clone()) else { continue };
            let vals = d.dispatch().map_err(|e| Viol { class: "refused".into(), detail: format!("{e:?}") })?;
            let mut k = 0;
            for ((v, p), c) in vals.zip(ij).zip(ll) {
                for x in [Item::V(v), Item::Ij(p), Item::Ll(c)] {
                    item_ok(&x, m, &models[sub], k)?;
                }
                k += 1;
            }
            if k != m.npts {
                return viol("length", format!("zipped iterators of {:?} end after {k} of {} points", m.idx, m.npts));
            }
        }
        st.nontrivial = used.len() > 1;
        st.add("operations", sc.ops.len() as u64);
        Ok(())
    }
}
