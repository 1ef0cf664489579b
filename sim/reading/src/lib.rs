//! A program that uses the library, for the reader type of the simulation. It is compiled like the library itself
//! (sim/rustc.sh): generic code of the library, which takes its shape here, has scheduling points and is counted.

use grib::{Grib2, Grib2SectionStream, Grib2SubmessageDecoder, Grib2SubmessageStream, GribError, SeekableGrib2Reader, SubMessage};
use std::io::{Read, Seek};

pub trait ReadSeek: Read + Seek {}
impl<T: Read + Seek> ReadSeek for T {}
pub type Rd = Box<dyn ReadSeek>;
pub type Handle = Grib2<SeekableGrib2Reader<Rd>>;
pub type Sub<'a> = SubMessage<'a, SeekableGrib2Reader<Rd>>;

#[inline(never)]
pub fn open(r: Rd) -> Result<Handle, GribError> {
    grib::from_reader(r)
}

#[inline(never)]
pub fn nth(h: &Handle, k: usize) -> Option<((usize, usize), Sub<'_>)> {
    h.iter().nth(k)
}

#[inline(never)]
pub fn sections(h: &Handle) -> usize {
    h.sections().count() + h.list_templates().len()
}

/// Octets of text about all submessages.
#[inline(never)]
pub fn describe(h: &Handle) -> usize {
    h.iter().map(|(_, s)| s.describe().len() + usize::from(s.parameter().is_some())).sum()
}

#[inline(never)]
pub fn decode(s: Sub<'_>) -> Result<Vec<f32>, GribError> {
    Ok(Grib2SubmessageDecoder::from(s)?.dispatch()?.collect())
}

/// Values of all submessages.
#[inline(never)]
pub fn values(h: &Handle) -> usize {
    let mut n = 0;
    for (_, s) in h {
        if let Ok(d) = Grib2SubmessageDecoder::from(s) {
            if let Ok(i) = d.dispatch() {
                n += i.count();
            }
        }
    }
    n
}

/// Grid points of all submessages.
#[inline(never)]
pub fn points(h: &Handle) -> usize {
    h.iter().map(|(_, s)| s.ij().map_or(0, |i| i.count()) + s.latlons().map_or(0, |i| i.count())).sum()
}

/// Ways of walking through the submessages.
#[inline(never)]
pub fn walk(h: &Handle) -> usize {
    let last = h.iter().nth(h.len().saturating_sub(1)).map_or(0, |x| x.0 .0);
    let some = h.iter().step_by(7).count() + h.submessages().skip(h.len() / 2).count();
    last + some + h.into_iter().count()
}

/// Submessages of a stream, up to the first error.
#[inline(never)]
pub fn stream(r: Rd) -> usize {
    Grib2SubmessageStream::new(Grib2SectionStream::new(SeekableGrib2Reader::new(r))).take_while(|x| x.is_ok()).count()
}
