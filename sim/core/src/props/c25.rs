//! C25: work in proportion to what is read.

use super::c04::gen_fault;
use super::open_stats;
use crate::alloc;
use crate::enc::*;
use crate::io::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc {
    file: FileSpec,
    delivery: Delivery,
    /// what there is more of: 0: messages; 1: submessages; 2, 3: grid points along a parallel, along a
    /// meridian; 4: foreign octets; 5: octets of the sections 1 and 2
    axis: u8,
    /// how much of it
    k: u32,
    fault: Option<Fault>,
}

/// how much larger the larger file is
const MORE: u32 = 4;

const AXES: [&str; 6] = ["messages", "submessages", "points along a parallel", "points along a meridian", "foreign octets", "octets of local sections"];
const PHASES: [&str; 7] = ["opening", "listing the sections", "describing the submessages", "decoding", "computing coordinates", "streaming", "walking to the end again"];
const MEASURES: [&str; 4] = ["calls on the byte source", "octets fetched from it", "octets of memory asked for", "steps"];
/// what does not depend on the amount
const FREE: [u64; 4] = [300, 20_000, 60_000, 6_000];

type Work = [[u64; 4]; PHASES.len()];

fn scaled(f: &FileSpec, axis: u8, k: u32) -> FileSpec {
    let mut f = f.clone();
    let n = k as usize;
    match axis {
        0 => {
            let m = f.msgs.clone();
            let n = n.next_multiple_of(m.len());
            f.msgs = m.into_iter().cycle().take(n).collect();
        }
        1 => {
            for m in f.msgs.iter_mut().take(1) {
                let s = m.subs.clone();
                let n = n.next_multiple_of(s.len().max(1));
                m.subs = s.into_iter().cycle().take(n).collect();
            }
        }
        2 => f.msgs.iter_mut().flat_map(|m| &mut m.subs).for_each(|s| s.grid.ni = k),
        3 => f.msgs.iter_mut().flat_map(|m| &mut m.subs).for_each(|s| s.grid.nj = k),
        4 => {
            f.msgs.iter_mut().for_each(|m| m.junk = k);
            f.tail = k;
        }
        _ => f.msgs.iter_mut().flat_map(|m| &mut m.subs).for_each(|s| {
            s.from = 2;
            s.local = k as u16;
        }),
    }
    f
}

struct Meter<'a> {
    src: &'a Source,
    work: Work,
}

impl Meter<'_> {
    fn during<T>(&mut self, phase: usize, f: impl FnOnce() -> T) -> T {
        self.src.refill_budget();
        let look = || {
            let s = self.src.0.borrow();
            [s.ops, s.got, alloc::asked()]
        };
        let before = look();
        alloc::steps_begin();
        let x = f();
        let steps = alloc::steps_end();
        let after = look();
        for i in 0..3 {
            self.work[phase][i] += after[i] - before[i];
        }
        self.work[phase][3] += steps;
        x
    }
}

fn pass(b: &Built, d: &Delivery, fault: Option<&Fault>, st: &mut Stats) -> Work {
    let src = Source::new(b.bytes.clone(), b.start, d);
    if let Some(f) = fault {
        src.arm(std::slice::from_ref(f));
    }
    let mut m = Meter { src: &src, work: Default::default() };
    let mut values = 0;
    if let Ok(h) = m.during(0, || reading::open(src.reader(d))) {
        m.during(1, || reading::sections(&h));
        m.during(2, || reading::describe(&h));
        values = m.during(3, || reading::values(&h));
        m.during(4, || reading::points(&h));
        m.during(6, || reading::walk(&h));
    }
    if fault.is_none() {
        src.0.borrow_mut().pos = b.start as u64;
        m.during(5, || reading::stream(src.reader(d)));
    }
    let work = m.work;
    st.add("values_decoded", values as u64);
    open_stats(&src, st);
    work
}

/// The same work, told from what the file has and how it is delivered, as a unit for each measure.
fn units(b: &Built, d: &Delivery, calls: impl Fn(usize) -> u64) -> Work {
    let len = b.bytes.len() as u64;
    let subs = b.subs.len() as u64;
    let sects = b.sects.len() as u64;
    let msgs = b.msgs.len() as u64 + 1;
    let points = b.subs.iter().map(|s| s.npts as u64).sum::<u64>();
    // octets of the sections from which values are decoded, of all submessages
    let data = b.subs.iter().map(|s| [5, 6, 7].iter().filter_map(|k| s.s[*k]).map(|i| b.sects[i].size as u64).sum::<u64>()).sum::<u64>();
    let parallels = b.subs.iter().filter(|s| s.grid.tmpl == 40).map(|s| (2 * u64::from(gauss_n(&s.grid))).pow(2)).sum::<u64>();
    let buf = u64::from(d.buf);
    let scan = len + 4096 * msgs;
    let open = |p| [sects + scan / 4096, scan + buf * sects, len + sects * 100, len + sects * 100 + calls(p) * 10];
    let text = subs * 1000;
    let grid = text + points * 10 + parallels * 10;
    [
        open(0),
        [1, 1, sects, sects],
        [1, 1, text, text],
        [subs, data + buf * subs, 0, data + points * 10 + text + calls(3) * 10],
        [1, 1, grid, grid],
        open(5),
        [1, 1, subs, subs],
    ]
}

/// So many units are accepted; 0: not judged. The first column counts only for a source that delivers what it is
/// asked for.
const LIMITS: Work = [[20, 4, 20, 4], [0, 0, 50, 100], [0, 0, 20, 4], [40, 6, 0, 20], [0, 0, 20, 40], [20, 4, 20, 4], [0, 0, 20, 200]];

pub struct C25;

impl Prop for C25 {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn count(&self) -> (u64, u64) {
        (6_000, 150_000)
    }
    fn rule(&self) -> &'static str {
        "a file and one with four times as much of something (messages, submessages, grid points, foreign octets, octets of a section) are opened, listed, described, decoded and streamed under the same delivery; calls on the byte source, octets fetched, memory asked for and steps of the library are counted and must not grow by much more than that; a failing call must not make it more; non-trivial: a fault, a short or an interrupted read; distinct by event-log digest"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a step is an edge of the control flow of crate grib, and of its generic code as instantiated for the simulated source; other libraries count by their allocations and calls on the source only"]
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let axis = (idx % 6) as u8;
        let mut k = Knobs::pick(r);
        k.big_chance = 0;
        k.junk = r.chance(1, 4);
        k.max_side = if matches!(axis, 2 | 3) { 30 } else { *r.pick(&[2u64, 3, 5]) };
        k.max_msgs = if axis == 1 { 1 } else { 2 };
        k.max_subs = if axis == 0 || axis == 1 { 1 + r.below(3) } else { 1 };
        k.packs = vec![*r.pick(&ALL_PACKS)];
        let mut file = gen_file(r, &k);
        for m in &mut file.msgs {
            m.junk %= 40;
            if axis < 2 {
                // the first unit may stand anywhere
                for s in &mut m.subs {
                    s.from = s.from.min(3);
                    s.local %= 8;
                }
            }
        }
        file.tail %= 40;
        let n = match axis {
            0 => 30 + r.below(150),
            1 => 30 + r.below(150),
            2 => 40 + r.below(120),
            3 => 40 + r.below(120),
            4 => 2000 + r.below(10_000),
            _ => 1000 + r.below(10_000),
        };
        serde_json::to_value(Sc { file, delivery: gen_delivery(r), axis, k: n as u32, fault: r.chance(1, 3).then(|| gen_fault(r, 400)) }).unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc = serde_json::from_value(sc.clone()).unwrap_or_default();
        if sc.k == 0 || sc.file.msgs.is_empty() {
            return Ok(());
        }
        let k = sc.k.min(16_000);
        let one = build(&scaled(&sc.file, sc.axis, k));
        let two = build(&scaled(&sc.file, sc.axis, MORE * k));
        let a = pass(&one, &sc.delivery, None, st);
        let b = pass(&two, &sc.delivery, None, st);
        // not all of it: what is set up once per process is part of the first run only
        st.mix_str(&format!("{:?}{:?}", a.map(|w| (w[0], w[1])), b.map(|w| (w[0], w[1]))));
        if let Some(p) = std::env::var_os("SIM_WORK") {
            use std::io::Write;
            let mut o = std::fs::OpenOptions::new().append(true).create(true).open(p).unwrap();
            for (b, w) in [(&one, &a), (&two, &b)] {
                let u = units(b, &sc.delivery, |p| w[p][0]);
                for p in 0..PHASES.len() {
                    for m in 0..4 {
                        let _ = o.write_all(format!("A|{}|{}|{}|{} {} {} {:.2}\n", AXES[usize::from(sc.axis % 6)], PHASES[p], MEASURES[m], sc.delivery.buf, w[p][m], u[p][m], w[p][m] as f64 / u[p][m] as f64).as_bytes());
                    }
                }
            }
            for p in 0..PHASES.len() {
                for m in 0..4 {
                    let _ = o.write_all(format!("{}|{}|{} {} {} {:.2}\n", AXES[usize::from(sc.axis % 6)], PHASES[p], MEASURES[m], a[p][m], b[p][m], (b[p][m].saturating_sub(FREE[m])) as f64 / (a[p][m].max(1)) as f64).as_bytes());
                }
            }
        }
        // the values of the larger file may be less regular: more octets of data for a value
        let data = |b: &Built| b.sects.iter().filter(|s| s.num == 7).map(|s| s.size as u64).sum::<u64>().max(1);
        let more = (data(&two) / data(&one)).max(4) * 20 + 10;
        let factor = |p: usize, m: usize| match p {
            3 if matches!(sc.axis, 2 | 3) => more,
            // Gaussian latitudes
            4 if sc.axis == 3 => 180,
            // sizes of transfers repeat, but not with the size of the file
            _ if m == 0 => 100,
            // the search for the next message looks ahead, less so at the end of the file
            _ if m == 1 => 80,
            0 | 5 if m == 3 => 65,
            _ => 52,
        };
        for p in 0..PHASES.len() {
            for m in 0..4 {
                if b[p][m] > factor(p, m) * a[p][m] / 10 + FREE[m] {
                    return viol("work", format!("{}: {} {} for a file with {k} {}, but {} for {}", PHASES[p], a[p][m], MEASURES[m], AXES[usize::from(sc.axis % 6)], b[p][m], MORE * k));
                }
            }
        }
        let plain = sc.delivery.buf == 0 && sc.delivery.chunks.is_empty();
        for (f, w) in [(&one, &a), (&two, &b)] {
            let u = units(f, &sc.delivery, |p| w[p][0]);
            for p in 0..PHASES.len() {
                for m in usize::from(!plain)..4 {
                    if LIMITS[p][m] != 0 && w[p][m] > LIMITS[p][m] * u[p][m] + FREE[m] {
                        return viol("work-at-all", format!("{}: {} {} for a file of {} octets with {} submessages, {} sections", PHASES[p], w[p][m], MEASURES[m], f.bytes.len(), f.subs.len(), f.sects.len()));
                    }
                }
            }
        }
        if let Some(f) = &sc.fault {
            let c = pass(&one, &sc.delivery, Some(f), st);
            for p in 0..PHASES.len() {
                for m in 0..4 {
                    if c[p][m] > 2 * a[p][m] + FREE[m] {
                        return viol("work-after-failure", format!("{}: {} {} when calls on the source fail, {} when they do not", PHASES[p], c[p][m], MEASURES[m], a[p][m]));
                    }
                }
            }
        }
        Ok(())
    }
}
