//! C24: memory is given back.

use super::c08::{gen_poke, poke, walk, Poke};
use super::c04::gen_fault;
use super::open_stats;
use crate::alloc;
use crate::enc::*;
use crate::io::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use grib::Grib2SubmessageDecoder;
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc {
    file: FileSpec,
    delivery: Delivery,
    pokes: Vec<Poke>,
    faults: Vec<Fault>,
    /// values after which an iterator is dropped
    stop: u32,
    /// one handle all the time
    keep: bool,
}

pub struct C24;

impl C24 {
    fn look(&self, sc: &Sc, h: &crate::oracle::Handle, src: &Source, st: &mut Stats) -> Result<(), Viol> {
        walk(h, src, st)?;
        for (_, s) in h.iter() {
            src.refill_budget();
            let _ = s.latlons().map(|i| i.take(sc.stop as usize).count());
            let _ = s.ij().map(|i| i.take(sc.stop as usize).count());
            if let Ok(d) = Grib2SubmessageDecoder::from(s) {
                let _ = d.dispatch().map(|i| i.take(sc.stop as usize).count());
            }
        }
        Ok(())
    }
    fn pass(&self, sc: &Sc, b: &Built, bytes: &[u8], st: &mut Stats) -> Result<(), Viol> {
        let src = Source::new(bytes.to_vec(), b.start, &sc.delivery);
        src.arm(&sc.faults);
        let r = match grib::from_reader(src.reader(&sc.delivery)) {
            Ok(h) => self.look(sc, &h, &src, st),
            Err(_) => Ok(()),
        };
        src.refill_budget();
        src.0.borrow_mut().pos = b.start as u64;
        for x in grib::Grib2SubmessageStream::new(grib::Grib2SectionStream::new(grib::SeekableGrib2Reader::new(src.reader(&sc.delivery)))).take(sc.stop as usize + 1) {
            let _ = x.is_ok();
        }
        open_stats(&src, st);
        r
    }
    /// What is held before each of three passes and after them.
    fn passes(&self, sc: &Sc, b: &Built, bytes: &[u8], st: &mut Stats) -> Result<[i64; 4], Viol> {
        let mut held = [0; 4];
        if sc.keep {
            let src = Source::new(bytes.to_vec(), b.start, &sc.delivery);
            let Ok(h) = grib::from_reader(src.reader(&sc.delivery)) else { return Ok(held) };
            for x in held.iter_mut() {
                *x = alloc::c_live();
                src.0.borrow_mut().fired.clear();
                src.arm(&sc.faults);
                src.refill_budget();
                self.look(sc, &h, &src, st)?;
            }
            open_stats(&src, st);
        } else {
            for x in held.iter_mut() {
                *x = alloc::c_live();
                self.pass(sc, b, bytes, st)?;
            }
        }
        Ok(held)
    }
}

impl Prop for C24 {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn count(&self) -> (u64, u64) {
        (30_000, 700_000)
    }
    fn rule(&self) -> &'static str {
        "a file, mostly damaged or read with I/O errors, is opened, walked, decoded, streamed and dropped again, three times in the same way; the memory in use must not grow from one time to the next; non-trivial: a fault or damage; distinct by event-log digest"
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let mut k = Knobs::pick(r);
        k.max_side = *r.pick(&[3u64, 5, 9, 16]);
        k.max_msgs = 2;
        k.max_subs = 2;
        k.big_chance = 0;
        k.packs = vec![*r.pick(&ALL_PACKS)];
        if idx % 3 == 0 {
            k.packs = vec![40];
        }
        let mut file = gen_file(r, &k);
        for m in &mut file.msgs {
            m.junk %= 40;
        }
        serde_json::to_value(Sc {
            file,
            delivery: gen_delivery(r),
            pokes: if r.chance(1, 2) { (0..1 + r.below(3)).map(|_| Poke { num: *r.pick(&[4u8, 5, 6, 7, 7]), ..gen_poke(r) }).collect() } else { vec![] },
            faults: if r.chance(1, 3) { (0..1 + r.below(2)).map(|_| gen_fault(r, 60)).collect() } else { vec![] },
            stop: r.below(20) as u32,
            keep: r.chance(1, 4),
        })
        .unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc = serde_json::from_value(sc.clone()).unwrap_or_default();
        let b = build(&sc.file);
        let mut bytes = b.bytes.clone();
        poke(&b, &mut bytes, &sc.pokes, 0);
        st.add("fault:damaged_file", u64::from(bytes != b.bytes));
        let changed = bytes != b.bytes;
        let held = self.passes(&sc, &b, &bytes, st)?;
        st.nontrivial |= changed;
        st.add("octets_compared_at_end_of_pass", 1);
        let grown = held[3] - held[2];
        if grown > 0 && held[2] > held[1] {
            return viol("retained", format!("{grown} octets are still held after everything was dropped, each time the file is read (passes: {:?})", held.windows(2).map(|w| w[1] - w[0]).collect::<Vec<_>>()));
        }
        Ok(())
    }
}
