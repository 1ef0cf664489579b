//! C21: handles over different sources, used in different threads, do not disturb one another.

use super::c04::gen_fault;
use super::open_stats;
use crate::alloc;
use crate::enc::*;
use crate::io::*;
use crate::oracle::*;
use crate::rng::{mix, Rng};
use crate::runner::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
struct Op {
    /// 0: decode; 1: decode value by value; 2: decode under faults; 3: listing and metadata; 4: open anew;
    /// 5: open a torn copy and decode what it lists; 6: grid indices and coordinates
    kind: u8,
    sub: u32,
    n: u32,
    faults: Vec<Fault>,
    /// every so many allocations of the operation are a scheduling point; 0: none
    every: u32,
    /// every so many edges of the library's control flow are one; 0: none
    edges: u32,
}

#[derive(Clone, Default, Serialize, Deserialize)]
#[serde(default)]
struct Th {
    file: FileSpec,
    delivery: Delivery,
    ops: Vec<Op>,
}

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc {
    threads: Vec<Th>,
    /// which thread goes on, and for how many scheduling points; then the threads finish one after another
    sched: Vec<(u8, u16)>,
}

/// One of the threads runs at a time; at every scheduling point the schedule says which.
struct Baton {
    st: Mutex<Turn>,
    cv: Condvar,
}

struct Turn {
    now: usize,
    alive: Vec<bool>,
    sched: std::vec::IntoIter<(u8, u16)>,
    left: u32,
    switches: u64,
    points: u64,
    digest: u64,
    /// threads that found a lock taken, without any of them going on
    stuck: u32,
    waits: u64,
}

impl Turn {
    fn next(&mut self) {
        while let Some((t, n)) = self.sched.next() {
            let t = usize::from(t) % self.alive.len();
            if self.alive[t] && n > 0 {
                self.switches += u64::from(t != self.now);
                if t != self.now {
                    trace(|| format!("thread {t} goes on, for {n} scheduling points"));
                }
                self.digest = mix(self.digest ^ mix(self.points ^ (t as u64) << 48));
                self.now = t;
                self.left = n.into();
                return;
            }
        }
        self.left = u32::MAX;
        trace(|| "the threads run to their ends".to_string());
        if !self.alive[self.now] {
            self.now = self.alive.iter().position(|a| *a).unwrap_or(0);
        }
    }
}

impl Baton {
    fn wait(&self, me: usize) {
        let _t = self.cv.wait_while(self.st.lock().unwrap(), |t| t.now != me).unwrap();
    }
    fn point(&self, me: usize) {
        let mut t = self.st.lock().unwrap();
        t.points += 1;
        t.stuck = 0;
        t.left -= 1;
        if t.left == 0 {
            t.next();
        }
        if t.now != me {
            self.cv.notify_all();
            let _t = self.cv.wait_while(t, |t| t.now != me).unwrap();
        }
    }
    /// The thread waits for something that only another thread can do.
    fn blocked(&self, me: usize) {
        let mut t = self.st.lock().unwrap();
        t.waits += 1;
        t.stuck += 1;
        if t.stuck > 1000 {
            unsafe { libc::_exit(78) }
        }
        t.left = 1;
        t.next();
        if t.now == me {
            let n = t.alive.len();
            if let Some(o) = (1..n).map(|k| (me + k) % n).find(|o| t.alive[*o]) {
                t.now = o;
            }
        }
        trace(|| format!("thread {me} waits for a lock; thread {} goes on", t.now));
        t.digest = mix(t.digest ^ mix(t.waits ^ (t.now as u64) << 32));
        self.cv.notify_all();
        let _t = self.cv.wait_while(t, |t| t.now != me).unwrap();
    }
    fn finish(&self, me: usize) {
        let mut t = self.st.lock().unwrap();
        t.alive[me] = false;
        t.next();
        self.cv.notify_all();
    }
}

fn work(th: &Th, b: &Built, st: &mut Stats) -> Result<(), Viol> {
    let src = Source::new(b.bytes.clone(), b.start, &th.delivery);
    let open = |src: &Source| reading::open(src.reader(&th.delivery));
    let bad = |e: grib::GribError| Viol { class: "open".into(), detail: format!("a good file was refused: {e:?}") };
    let mut h = open(&src).map_err(bad)?;
    check_listing(&h, b)?;
    let mut olds = vec![];
    for (i, op) in th.ops.iter().enumerate() {
        let src: &Source = olds.last().unwrap_or(&src);
        src.refill_budget();
        st.evals += 1;
        let tag = |v: Viol| Viol { class: v.class, detail: format!("operation {i}: {}", v.detail) };
        let k = op.sub as usize % b.subs.len();
        let m = &b.subs[k];
        let sub = |h: &Handle| -> Result<(), Viol> {
            let (_, s) = reading::nth(h, k).ok_or_else(|| Viol { class: "listing".into(), detail: format!("submessage {k} is gone") })?;
            match op.kind % 7 {
                0 => judge_decode(reading::decode(s), m).map(|_| ()),
                1 => {
                    let r = grib::Grib2SubmessageDecoder::from(s).and_then(|d| {
                        let it = d.dispatch()?;
                        Ok(it.inspect(|_| yield_point()).collect::<Vec<f32>>())
                    });
                    judge_decode(r, m).map(|_| ())
                }
                2 => {
                    let fired = src.fired();
                    src.arm(&op.faults);
                    let r = reading::decode(s);
                    src.disarm();
                    match r {
                        Err(_) if src.fired() > fired => Ok(()),
                        r => judge_decode(r, m).map(|_| ()),
                    }
                }
                6 => check_coords(&s, m),
                _ => {
                    check_index(m.idx, &s, m, b)?;
                    check_meta(&s, m, &b.msgs[m.idx.0])?;
                    drop(s);
                    check_listing(h, b)
                }
            }
        };
        alloc::yield_every(op.every);
        alloc::yield_edges(op.edges);
        match op.kind % 7 {
            4 => {
                let src = Source::new(b.bytes.clone(), b.start, &th.delivery);
                h = open(&src).map_err(bad).map_err(tag)?;
                check_listing(&h, b).map_err(tag)?;
                olds.push(src);
            }
            5 => {
                let torn = Source::new(b.bytes[..op.n as usize % b.bytes.len()].to_vec(), b.start.min(op.n as usize % b.bytes.len()), &th.delivery);
                if let Ok(t) = open(&torn) {
                    for (_, s) in &t {
                        let _ = decode(s);
                    }
                }
                open_stats(&torn, st);
            }
            _ => sub(&h).map_err(tag)?,
        }
        alloc::yield_every(0);
        alloc::yield_edges(0);
    }
    for s in &olds {
        open_stats(s, st);
    }
    open_stats(&src, st);
    Ok(())
}

pub struct C21;

impl Prop for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn count(&self) -> (u64, u64) {
        (150_000, 3_000_000)
    }
    fn rule(&self) -> &'static str {
        "two to four threads, each with handles over its own source (files that are equal, equal in layout, or different), list, decode, walk the grid, fail and reopen; a seeded schedule decides at every call on a byte source and between values which thread goes on; each fault-free answer is compared with the encoder's; evaluations: operations; non-trivial: the schedule switched threads in the middle of an operation; distinct by event-log digest including the schedule taken"
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let n = 2 + r.us(3);
        let base = gen_small_file(r);
        let threads = (0..n)
            .map(|_| {
                let file = match r.below(3) {
                    0 => gen_small_file(r),
                    _ => {
                        let mut f = base.clone();
                        let same = r.chance(1, 5);
                        for s in f.msgs.iter_mut().flat_map(|m| &mut m.subs) {
                            if !same {
                                s.field.seed = r.u64();
                                s.bmp.seed = r.u64();
                                s.prod.seed = r.u64();
                            }
                        }
                        f
                    }
                };
                let k = 1 + r.below(8);
                let ops = (0..k)
                    .map(|_| {
                        let kind = *r.pick(&[0u8, 0, 0, 1, 1, 2, 3, 4, 5, 6, 6]);
                        let range = *r.pick(&[2u64, 5, 10, 60]);
                        let faults = if kind == 2 { vec![gen_fault(r, range)] } else { vec![] };
                        let every = *r.pick(&[0u32, 1, 1, 2, 3, 7, 40]);
                        let edges = *r.pick(&[0u32, 0, 1, 1, 2, 5, 30]);
                        Op { kind, sub: r.below(24) as u32, n: r.below(1 << 20) as u32, faults, every, edges }
                    })
                    .collect();
                Th { file, delivery: gen_delivery(r), ops }
            })
            .collect();
        let len = *r.pick(&[1u16, 3, 10, 50, 400, 3000]);
        let k = r.below(120);
        let sched = (0..k).map(|_| (r.below(n as u64) as u8, 1 + r.below(len.into()) as u16)).collect();
        serde_json::to_value(Sc { threads, sched }).unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc = serde_json::from_value(sc.clone()).unwrap_or_default();
        let built: Vec<Built> = sc.threads.iter().map(|t| build(&t.file)).collect();
        let n = built.len();
        if n == 0 || built.iter().any(|b| b.subs.is_empty()) {
            return Ok(());
        }
        let mut turn = Turn { now: 0, alive: vec![true; n], sched: sc.sched.clone().into_iter(), left: 0, switches: 0, points: 0, digest: 0, stuck: 0, waits: 0 };
        turn.next();
        // what is set up once per process is set up before the threads run
        let _ = crate::tables::text("4.5", &[], 1);
        let baton = Arc::new(Baton { st: Mutex::new(turn), cv: Condvar::new() });
        let results: Vec<(Result<(), Viol>, Stats)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|me| {
                    let (th, b, baton) = (&sc.threads[me], &built[me], baton.clone());
                    s.spawn(move || {
                        baton.wait(me);
                        let mut st = Stats::default();
                        let b2 = baton.clone();
                        set_yield(Some(Rc::new(move || alloc::inside(|| b2.point(me)))));
                        let b2 = baton.clone();
                        set_blocked(Some(Rc::new(move || b2.blocked(me))));
                        alloc::random_from(mix(me as u64 + 2));
                        alloc::scheduled(true);
                        let r = guarded(|| work(th, b, &mut st));
                        alloc::yield_every(0);
                        alloc::yield_edges(0);
                        alloc::scheduled(false);
                        set_yield(None);
                        set_blocked(None);
                        baton.finish(me);
                        (r, st)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        let t = baton.st.lock().unwrap();
        let mut first = Ok(());
        for (k, (r, s)) in results.into_iter().enumerate() {
            for (name, v) in &s.c {
                st.add(name, *v);
            }
            st.evals += s.evals;
            st.mix(s.digest);
            if first.is_ok() {
                first = r.map_err(|v| Viol { class: v.class, detail: format!("thread {k} of {n}: {}", v.detail) });
            }
        }
        st.add("thread_switches", t.switches);
        st.add("scheduling_points", t.points);
        st.add("waits_for_a_lock", t.waits);
        st.mix(t.digest);
        st.nontrivial = t.switches > 1;
        first
    }
}
