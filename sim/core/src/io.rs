//! The simulated byte source: the library's only view of the outside world. Every transfer size, interruption
//! and error is taken from an explicit schedule; every call is entered in the event digest.

use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{self, BufReader, ErrorKind, Read, Seek, SeekFrom};
use std::rc::Rc;

/// How the bytes are handed over.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Delivery {
    /// cycle of transfer sizes; 0: this read is interrupted; empty: as much as asked for
    pub chunks: Vec<u32>,
    /// capacity of a BufReader around the source (0: none)
    pub buf: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Fault {
    /// index of the read/seek call (counted from the arming of the fault)
    pub at: u32,
    pub kind: u8,
    /// 0: once; 1: this and all later calls; n>1: n calls
    pub times: u32,
}

pub const KINDS: [(&str, Option<i32>, ErrorKind); 10] = [
    ("EIO", Some(5), ErrorKind::Other),
    ("EAGAIN", Some(11), ErrorKind::WouldBlock),
    ("ENOMEM", Some(12), ErrorKind::OutOfMemory),
    ("EINVAL", Some(22), ErrorKind::InvalidInput),
    ("ESTALE", Some(116), ErrorKind::Other),
    ("ETIMEDOUT", Some(110), ErrorKind::TimedOut),
    ("UnexpectedEof", None, ErrorKind::UnexpectedEof),
    ("InvalidData", None, ErrorKind::InvalidData),
    ("ConnectionReset", Some(104), ErrorKind::ConnectionReset),
    ("Custom", None, ErrorKind::Other),
];

pub fn kind_name(k: u8) -> &'static str {
    KINDS[usize::from(k) % KINDS.len()].0
}

pub fn gen_delivery(r: &mut Rng) -> Delivery {
    let chunks = match r.below(8) {
        0 => vec![],
        1 => vec![1],
        2 => vec![1 + r.below(20) as u32],
        3 => (0..1 + r.below(8)).map(|_| r.below(6) as u32).collect(),
        4 => (0..1 + r.below(8)).map(|_| r.below(5000) as u32).collect(),
        5 => vec![0, 100_000],
        6 => {
            let mut v: Vec<u32> = (0..2 + r.below(30)).map(|_| if r.chance(1, 4) { 0 } else { 1 + r.below(64) as u32 }).collect();
            v.push(3);
            v
        }
        _ => (0..1 + r.below(5)).map(|_| *r.pick(&[0u32, 1, 3, 4, 5, 15, 16, 4095, 4096, 4097])).collect(),
    };
    let buf = match r.below(4) {
        0 => *r.pick(&[1u32, 2, 5, 16, 17, 100, 4096, 8192]),
        1 => 1 + r.below(600) as u32,
        _ => 0,
    };
    Delivery { chunks, buf }
}

/// For large files: the same freedom, with fewer calls.
pub fn gen_delivery_large(r: &mut Rng) -> Delivery {
    let chunks = match r.below(4) {
        0 => vec![],
        1 => (0..2 + r.below(8)).map(|_| if r.chance(1, 5) { 0 } else { 1 + r.below(200_000) as u32 }).collect(),
        2 => (0..1 + r.below(5)).map(|_| *r.pick(&[1u32, 16, 4095, 4096, 4097, 65_536])).chain([200_000]).collect(),
        _ => (0..1 + r.below(8)).map(|_| 1 + r.below(9000) as u32).collect(),
    };
    Delivery { chunks, buf: *r.pick(&[0u32, 0, 0, 100, 4096, 8192, 65_536]) }
}

#[derive(Default)]
pub struct State {
    pub data: Vec<u8>,
    pub pos: u64,
    chunks: Vec<u32>,
    ci: usize,
    pub ops: u64,
    pub reads: u64,
    pub seeks: u64,
    pub short: u64,
    /// octets handed over
    pub got: u64,
    pub intr: u64,
    pub budget: u64,
    pub digest: u64,
    /// armed faults and the op count at which they were armed
    armed: Vec<Fault>,
    armed_at: u64,
    pub fired: Vec<u8>,
    /// a writer at work: how much of `data` is there so far, and how much more there is after how many more calls
    pub written: Option<u64>,
    pub writer: std::collections::VecDeque<(u32, u32)>,
    wrote_at: u64,
    /// stretches of zeros that are not stored: position in `data` and length
    pub holes: Vec<(usize, u64)>,
    /// all lengths the source has had
    pub lengths: Vec<u64>,
}

impl State {
    fn len(&self) -> u64 {
        self.written.unwrap_or(u64::MAX).min(self.data.len() as u64 + self.holes.iter().map(|h| h.1).sum::<u64>())
    }
    /// What is stored at `pos`, as far as it is stored in one piece: where in `data` (None: zeros), and how much.
    fn piece(&self, pos: u64) -> (Option<usize>, u64) {
        let (mut at, mut from) = (0u64, 0usize);
        for (p, n) in &self.holes {
            let m = (p - from) as u64;
            if pos < at + m {
                return (Some(from + (pos - at) as usize), at + m - pos);
            }
            at += m;
            from = *p;
            if pos < at + n {
                return (None, at + n - pos);
            }
            at += n;
        }
        (Some(from + (pos - at).min((self.data.len() - from) as u64) as usize), u64::MAX)
    }
    pub fn write(&mut self, n: u32) {
        let len = self.len() + u64::from(n);
        self.written = Some(len);
        self.wrote_at = self.ops;
        self.lengths.push(self.len());
        self.note(11, len, 0);
        crate::runner::trace(|| format!("the writer has written {n} octets, {len} in all"));
    }
    fn note(&mut self, tag: u64, a: u64, b: u64) {
        self.digest = mix(self.digest ^ mix(tag ^ mix(a ^ mix(b))));
    }
    fn op(&mut self) -> Option<io::Error> {
        while let Some((gap, n)) = self.writer.front().copied() {
            if self.ops < self.wrote_at + u64::from(gap) {
                break;
            }
            self.writer.pop_front();
            self.write(n);
        }
        self.ops += 1;
        if self.ops > self.budget {
            panic!("SIM-BUDGET: {} calls on the byte source", self.ops);
        }
        let k = self.ops - 1 - self.armed_at;
        for f in &self.armed {
            let n = match f.times {
                0 => 1,
                1 => u64::MAX / 2,
                n => n.into(),
            };
            if k >= u64::from(f.at) && k < u64::from(f.at) + n {
                let kind = f.kind;
                self.fired.push(kind % KINDS.len() as u8);
                self.note(9, kind.into(), k);
                let (name, raw, ek) = KINDS[usize::from(kind) % KINDS.len()];
                crate::runner::trace(|| format!("op {k}: injected {name}"));
                return Some(match raw {
                    Some(n) => io::Error::from_raw_os_error(n),
                    None => io::Error::new(ek, "simulated fault"),
                });
            }
        }
        None
    }
}

#[derive(Clone)]
pub struct Source(pub Rc<RefCell<State>>);

impl Source {
    pub fn new(data: Vec<u8>, start: usize, d: &Delivery) -> Source {
        let mut chunks = d.chunks.clone();
        if !chunks.is_empty() && chunks.iter().all(|c| *c == 0) {
            chunks.push(1);
        }
        let budget = data.len() as u64 * 60 + 400_000;
        Source(Rc::new(RefCell::new(State { data, pos: start as u64, chunks, budget, ..Default::default() })))
    }
    pub fn reader(&self, d: &Delivery) -> Rd {
        let raw = Raw(self.0.clone());
        if d.buf > 0 {
            Box::new(BufReader::with_capacity(d.buf.min(100_000) as usize, raw))
        } else {
            Box::new(raw)
        }
    }
    pub fn arm(&self, f: &[Fault]) {
        let mut s = self.0.borrow_mut();
        s.armed = f.to_vec();
        s.armed_at = s.ops;
    }
    pub fn disarm(&self) {
        self.0.borrow_mut().armed.clear();
    }
    pub fn ops(&self) -> u64 {
        self.0.borrow().ops
    }
    pub fn fired(&self) -> usize {
        self.0.borrow().fired.len()
    }
    pub fn note(&self, a: u64) {
        self.0.borrow_mut().note(77, a, 0);
    }
    pub fn refill_budget(&self) {
        let mut s = self.0.borrow_mut();
        s.budget = s.ops + s.data.len() as u64 * 60 + 400_000;
    }
    pub fn digest(&self) -> u64 {
        self.0.borrow().digest
    }
}

pub use reading::Rd;

struct Raw(Rc<RefCell<State>>);

thread_local! {
    static YIELD: RefCell<Option<Rc<dyn Fn()>>> = const { RefCell::new(None) };
}

/// Has the scheduler of the run, if it has one, decide at every call on a byte source of this thread.
pub fn set_yield(f: Option<Rc<dyn Fn()>>) {
    YIELD.with(|y| *y.borrow_mut() = f);
}

thread_local! {
    static BLOCKED: RefCell<Option<Rc<dyn Fn()>>> = const { RefCell::new(None) };
}

/// What a thread does that would have to wait for another one.
pub fn set_blocked(f: Option<Rc<dyn Fn()>>) {
    BLOCKED.with(|y| *y.borrow_mut() = f);
}

pub fn blocked() {
    let f = BLOCKED.with(|y| y.borrow().clone());
    if let Some(f) = f {
        f();
    }
}

pub fn yield_point() {
    let f = YIELD.with(|y| y.borrow().clone());
    if let Some(f) = f {
        f();
    }
}

impl Read for Raw {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        yield_point();
        let s = &mut *self.0.borrow_mut();
        s.reads += 1;
        if let Some(e) = s.op() {
            return Err(e);
        }
        let len = s.len();
        let left = len.saturating_sub(s.pos) as usize;
        let (stored, whole) = s.piece(s.pos);
        let mut n = buf.len().min(left).min(whole as usize);
        if !s.chunks.is_empty() {
            let c = s.chunks[s.ci % s.chunks.len()];
            s.ci += 1;
            if c == 0 {
                s.intr += 1;
                s.note(1, s.pos, u64::MAX);
                crate::runner::trace(|| format!("read({}) at {} interrupted", buf.len(), s.pos));
                return Err(ErrorKind::Interrupted.into());
            }
            if (c as usize) < n {
                n = c as usize;
                s.short += 1;
            }
        }
        match stored {
            _ if n == 0 => {}
            Some(p) => buf[..n].copy_from_slice(&s.data[p..p + n]),
            None => buf[..n].fill(0),
        }
        s.note(2, s.pos, n as u64);
        crate::runner::trace(|| format!("read({}) at {} -> {}", buf.len(), s.pos, n));
        s.pos += n as u64;
        s.got += n as u64;
        Ok(n)
    }
}

impl Seek for Raw {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        yield_point();
        let s = &mut *self.0.borrow_mut();
        s.seeks += 1;
        if let Some(e) = s.op() {
            return Err(e);
        }
        let np: i128 = match to {
            SeekFrom::Start(n) => n.into(),
            SeekFrom::Current(d) => i128::from(s.pos) + i128::from(d),
            SeekFrom::End(d) => i128::from(s.len()) + i128::from(d),
        };
        if np < 0 || np > i128::from(i64::MAX) {
            s.note(3, s.pos, u64::MAX);
            return Err(io::Error::from_raw_os_error(22));
        }
        s.pos = np as u64;
        s.note(4, s.pos, 0);
        crate::runner::trace(|| format!("seek -> {np}"));
        Ok(s.pos)
    }
}
