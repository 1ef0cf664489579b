//! Comparison of what the library reports with the encoder's model.

use crate::enc::*;
use crate::runner::{viol, Viol};
use crate::tables::text;
use grib::{Grib2, Grib2SubmessageDecoder, GribError, SectionBody, TemplateInfo};

pub use reading::{Handle, Sub};

pub fn body_matches(s: &grib::SectionInfo, bytes: &[u8]) -> Result<(), String> {
    if s.num == 8 {
        return match s.body {
            None if bytes.get(s.offset..s.offset + 4) == Some(b"7777") => Ok(()),
            _ => Err(format!("end section at {} carries {:?}", s.offset, s.body)),
        };
    }
    let p = bytes.get(s.offset + 5..s.offset.saturating_add(s.size)).ok_or("section outside the file")?;
    let eq = |v: Vec<u8>| -> Result<(), String> {
        if v == p {
            Ok(())
        } else {
            Err(format!("payload of section {} at {} differs from the file", s.num, s.offset))
        }
    };
    match (s.num, s.body.as_ref()) {
        (0, Some(SectionBody::Section0(i))) => {
            let b = &bytes[s.offset..s.offset + 16];
            let len = u64::from_be_bytes(b[8..16].try_into().unwrap());
            if &b[..4] != b"GRIB" || i.discipline != b[6] || i.total_length != len {
                return Err(format!("indicator at {} differs: {i:?}", s.offset));
            }
            Ok(())
        }
        (1, Some(SectionBody::Section1(x))) => eq(x.iter().copied().collect()),
        (2, Some(SectionBody::Section2(x))) => eq(x.iter().copied().collect()),
        (3, Some(SectionBody::Section3(x))) => eq(x.iter().copied().collect()),
        (4, Some(SectionBody::Section4(x))) => eq(x.iter().copied().collect()),
        (5, Some(SectionBody::Section5(x))) => eq(x.iter().copied().collect()),
        (6, Some(SectionBody::Section6(x))) => {
            if x.bitmap_indicator == p[0] {
                Ok(())
            } else {
                Err(format!("bitmap indicator at {}", s.offset))
            }
        }
        (7, Some(SectionBody::Section7)) => Ok(()),
        (n, b) => Err(format!("section {n} carries {b:?}")),
    }
}

pub fn templates(b: &Built) -> Vec<TemplateInfo> {
    let mut v: Vec<(u8, u16)> = vec![];
    for s in &b.subs {
        v.push((3, s.grid.tmpl));
        v.push((4, s.prod.tmpl));
        v.push((5, s.repr));
    }
    v.sort_unstable();
    v.dedup();
    v.into_iter().map(|(a, b)| TemplateInfo(a, b)).collect()
}

/// The section list and the submessage index.
pub fn check_listing<R: grib::Grib2Read>(h: &grib::Grib2<R>, b: &Built) -> Result<(), Viol> {
    let got: Vec<_> = h.sections().collect();
    for (i, (g, e)) in got.iter().zip(b.sects.iter()).enumerate() {
        if (g.num, g.offset, g.size) != (e.num, e.off, e.size) {
            return viol("listing", format!("section {i}: reported (num {}, offset {}, size {}), file has {e:?}", g.num, g.offset, g.size));
        }
        if let Err(m) = body_matches(g, &b.bytes) {
            return viol("listing", m);
        }
    }
    if got.len() != b.sects.len() {
        return viol("listing", format!("{} sections reported, file has {}", got.len(), b.sects.len()));
    }
    if h.len() != b.subs.len() || h.is_empty() != b.subs.is_empty() {
        return viol("listing", format!("{} submessages reported, file has {}", h.len(), b.subs.len()));
    }
    if h.list_templates() != templates(b) {
        return viol("templates", format!("{:?} reported, file has {:?}", h.list_templates(), templates(b)));
    }
    let mut n = 0;
    for (idx, s) in h.iter() {
        let Some(m) = b.subs.get(n) else { return viol("listing", "iterator longer than len()") };
        check_index(idx, &s, m, b)?;
        n += 1;
    }
    if n != b.subs.len() {
        return viol("listing", format!("iterator yielded {n} submessages of {}", b.subs.len()));
    }
    Ok(())
}

pub fn check_index<R>(idx: (usize, usize), s: &grib::SubMessage<'_, R>, m: &SubModel, b: &Built) -> Result<(), Viol> {
    if idx != m.idx {
        return viol("index", format!("submessage {:?} reported as {idx:?}", m.idx));
    }
    let secs = [
        Some(&s.0),
        Some(&s.1),
        s.2.as_ref(),
        Some(&s.3),
        Some(&s.4),
        Some(&s.5),
        Some(&s.6),
        Some(&s.7),
        Some(&s.8),
    ];
    for (k, x) in secs.iter().enumerate() {
        if k == 8 && !m.last_in_msg {
            continue;
        }
        let got = x.map(|x| x.index);
        if got != m.s[k] {
            return viol("index", format!("submessage {:?}: section {k} is entry {got:?}, expected {:?}", m.idx, m.s[k]));
        }
        if let (Some(x), Some(i)) = (x, m.s[k]) {
            let e = &b.sects[i];
            if (x.body.num, x.body.offset, x.body.size) != (e.num, e.off, e.size) {
                return viol("index", format!("submessage {:?}: section {k} refers to {:?}", m.idx, x.body));
            }
        }
    }
    Ok(())
}

/// The units of Code table 4.5.
fn surface_unit(t: u8) -> Option<&'static str> {
    Some(match t {
        11 | 12 | 26 | 27 | 30 | 102 | 103 | 106 | 117 | 160 | 161 => "m",
        18 | 100 | 108 => "Pa",
        20 | 107 | 170 => "K",
        21 | 22 | 169 => "kg m-3",
        23 | 24 => "Bq m-3",
        114 | 151 | 152 | 168 => "Numeric",
        13 => "%",
        25 => "dBZ",
        104 => "\"sigma\" value",
        109 => "K m2 kg-1 s-1",
        171 => "m2 s-1",
        _ => return None,
    })
}

/// The units of Code table 4.4, as the library names and abbreviates them.
fn time_unit(u: u8) -> Option<(&'static str, &'static str)> {
    Some(match u {
        0 => ("Minute", "m"),
        1 => ("Hour", "h"),
        2 => ("Day", "D"),
        3 => ("Month", "M"),
        4 => ("Year", "Y"),
        5 => ("Decade", "10Y"),
        6 => ("Normal", "30Y"),
        7 => ("Century", "C"),
        10 => ("ThreeHours", "3h"),
        11 => ("SixHours", "6h"),
        12 => ("TwelveHours", "12h"),
        13 => ("Second", "s"),
        255 => ("Missing", ""),
        _ => return None,
    })
}

/// The contents of the grid definition.
fn check_grid(s: &Sub, m: &SubModel) -> Result<(), Viol> {
    use grib::GridDefinitionTemplateValues as T;
    let (g, x) = (&m.grid, grid_rest(&m.grid));
    let bad = |got: String, exp: String| viol("metadata", format!("submessage {:?}: grid definition: got {got}, file says {exp}", m.idx));
    let (got, exp, earth) = match T::try_from(s.grid_def()) {
        Ok(T::Template0(d)) => (
            format!("{:?}", (d.ni, d.nj, d.first_point_lat, d.first_point_lon, d.last_point_lat, d.last_point_lon, d.scanning_mode.0)),
            format!("{:?}", (g.ni, g.nj, g.lat1, g.lon1, g.lat2, g.lon2, g.scan)),
            None,
        ),
        Ok(T::Template40(d)) => (
            format!("{:?}", (d.ni, d.nj, d.first_point_lat, d.first_point_lon, d.last_point_lat, d.last_point_lon, d.n, d.scanning_mode.0)),
            format!("{:?}", (g.ni, g.nj, g.lat1, g.lon1, g.lat2, g.lon2, gauss_n(g), g.scan)),
            None,
        ),
        Ok(T::Template20(d)) => (
            format!("{:?}", (d.ni, d.nj, d.first_point_lat, d.first_point_lon, d.lad, d.lov, d.dx, d.dy, d.projection_centre.0, d.scanning_mode.0)),
            format!("{:?}", (g.ni, g.nj, g.lat1, g.lon1, x.lad, x.lov, x.dx, x.dy, x.centre, g.scan)),
            Some(d.earth_shape),
        ),
        Ok(T::Template30(d)) => (
            format!("{:?}", (d.ni, d.nj, d.first_point_lat, d.first_point_lon, d.lad, d.lov, d.dx, d.dy, d.scanning_mode.0, d.latin1, d.latin2)),
            format!("{:?}", (g.ni, g.nj, g.lat1, g.lon1, x.lad, x.lov, x.dx, x.dy, g.scan, x.latin[0], x.latin[1])),
            Some(d.earth_shape),
        ),
        Err(_) if !grid_known(g) => return Ok(()),
        Err(e) => (format!("{e:?}"), "a grid that is supported".into(), None),
    };
    if got != exp || !grid_known(g) {
        return bad(got, exp);
    }
    if let Ok(t) = T::try_from(s.grid_def()) {
        let mode = match &t {
            T::Template0(d) => d.scanning_mode,
            T::Template40(d) => d.scanning_mode,
            T::Template20(d) => d.scanning_mode,
            T::Template30(d) => d.scanning_mode,
        };
        let bits = [mode.scans_positively_for_i(), mode.scans_positively_for_j(), mode.is_consecutive_for_i(), mode.scans_alternating_rows()];
        let name = match g.tmpl {
            0 => "regular_ll",
            40 => "regular_gg",
            20 => "polar_stereographic",
            _ => "lambert",
        };
        let got = format!("{:?}", (t.short_name(), t.grid_shape(), bits));
        let exp = format!("{:?}", (name, (g.ni as usize, g.nj as usize), [g.scan & 128 == 0, g.scan & 64 != 0, g.scan & 32 == 0, g.scan & 16 != 0]));
        if got != exp {
            return bad(got, exp);
        }
        if let T::Template20(d) = &t {
            let got = (d.projection_centre.contains_north_pole_on_projection_plane(), d.projection_centre.is_bipolar());
            let exp = (x.centre & 128 == 0, x.centre & 64 != 0);
            if got != exp {
                return bad(format!("projection centre {got:?}"), format!("{exp:?}"));
            }
        }
    }
    if let Some(e) = earth {
        let got = (
            e.shape_of_the_earth,
            [
                (e.scale_factor_of_radius_of_spherical_earth, e.scaled_value_of_radius_of_spherical_earth),
                (e.scale_factor_of_earth_major_axis, e.scaled_value_of_earth_major_axis),
                (e.scale_factor_of_earth_minor_axis, e.scaled_value_of_earth_minor_axis),
            ],
        );
        if got != (x.shape, x.axes) {
            return bad(format!("earth {got:?}"), format!("{:?}", (x.shape, x.axes)));
        }
        let near = |a: f64, b: f64| (a - b).abs() <= b.abs() * 1e-9;
        let same = match (e.radii(), earth_radii(&x)) {
            (None, None) => true,
            (Some(a), Some(b)) => near(a.0, b.0) && near(a.1, b.1),
            _ => false,
        };
        if !same {
            return bad(format!("radii of the earth {:?}", e.radii()), format!("{:?} ({:?})", earth_radii(&x), (x.shape, x.axes)));
        }
    }
    Ok(())
}

/// Header metadata through the accessors.
pub fn check_meta(s: &Sub, m: &SubModel, msg: &MsgModel) -> Result<(), Viol> {
    let w = |what: &str, got: String, exp: String| -> Result<(), Viol> {
        if got == exp {
            Ok(())
        } else {
            viol("metadata", format!("submessage {:?}: {what}: got {got}, file says {exp}", m.idx))
        }
    };
    w("discipline", s.indicator().discipline.to_string(), msg.disc.to_string())?;
    w("total length", s.indicator().total_length.to_string(), msg.len.to_string())?;
    w("grid points", s.grid_def().num_points().to_string(), m.npts.to_string())?;
    w("grid template", s.grid_def().grid_tmpl_num().to_string(), m.grid.tmpl.to_string())?;
    w("data points", s.repr_def().num_points().to_string(), m.nenc.to_string())?;
    w("data template", s.repr_def().repr_tmpl_num().to_string(), m.repr.to_string())?;
    w("product template", s.prod_def().prod_tmpl_num().to_string(), m.prod.tmpl.to_string())?;
    w("parameter category", format!("{:?}", s.prod_def().parameter_category()), format!("{:?}", m.prod.cat))?;
    w("parameter number", format!("{:?}", s.prod_def().parameter_number()), format!("{:?}", m.prod.num))?;
    let unsure = m.prod.unsure;
    if unsure & 1 == 0 {
        w("generating process", format!("{:?}", s.prod_def().generating_process()), format!("{:?}", m.prod.genproc))?;
    }
    let ft = s.prod_def().forecast_time().map(|f| {
        let unit: u8 = match f.unit {
            grib::Code::Name(n) => n.into(),
            grib::Code::Num(n) => n,
        };
        (unit, f.value)
    });
    if unsure & 2 == 0 {
        w("forecast time", format!("{ft:?}"), format!("{:?}", m.prod.forecast))?;
    }
    let fs = s.prod_def().fixed_surfaces().map(|(a, b)| {
        [(a.surface_type, a.scale_factor, a.scaled_value), (b.surface_type, b.scale_factor, b.scaled_value)]
    });
    w("fixed surfaces", format!("{fs:?}"), format!("{:?}", m.prod.surfaces))?;
    let par = s.parameter().map(|p| (p.discipline, p.centre, p.master_ver, p.local_ver, p.category, p.num));
    let exp = m.prod.cat.zip(m.prod.num).map(|(c, n)| (msg.disc, msg.id.centre, msg.id.mtv, msg.id.ltv, c, n));
    w("parameter", format!("{par:?}"), format!("{exp:?}"))?;
    if let Some((p, (c, n))) = s.parameter().zip(m.prod.cat.zip(m.prod.num)) {
        let e = text("4.2", &[msg.disc, c], n.into());
        let e = (!e.ends_with("is not implemented")).then_some(e);
        w("text of the parameter", format!("{:?}", p.description()), format!("{e:?}"))?;
        use grib::codetables::NCEP;
        let got = [p.is_identical_to(NCEP::PRES), p.is_identical_to(NCEP::PRMSL), p.is_identical_to(NCEP::HGT)];
        let exp = [(0, 3, 0), (0, 3, 1), (0, 3, 5)].map(|x| x == (msg.disc, c, n));
        w("identical to NCEP's PRES, PRMSL, HGT", format!("{got:?}"), format!("{exp:?}"))?;
    }
    let head: Vec<u8> = s.prod_def().iter().take(2).copied().collect();
    w("number of coordinates", s.prod_def().num_coordinates().to_string(), (u16::from(head[0]) << 8 | u16::from(head[1])).to_string())?;
    for (k, (x, t)) in [(&s.3, m.grid.tmpl), (&s.4, m.prod.tmpl), (&s.5, m.repr)].into_iter().enumerate() {
        let n = k as u8 + 3;
        w("template", format!("{:?}, {:?}", x.template_code(), x.describe()), format!("{:?}, {:?}", Some(TemplateInfo(n, t)), Some(text(["3.1", "4.0", "5.0"][k], &[], t))))?;
    }
    for x in [Some(&s.0), Some(&s.1), s.2.as_ref(), Some(&s.6), Some(&s.7)].into_iter().flatten() {
        w("template", format!("{:?}, {:?}", x.template_code(), x.describe()), "None, None".into())?;
    }
    let shape = s.grid_shape().ok();
    let exp = grid_known(&m.grid).then_some((m.grid.ni as usize, m.grid.nj as usize));
    w("grid shape", format!("{shape:?}"), format!("{exp:?}"))?;
    check_grid(s, m)?;
    // the description, line by line: what each line has to say about this submessage
    let missing8 = |x: i8| if x == -127 { "Missing".to_string() } else { x.to_string() };
    let missing32 = |x: i32| if x == -i32::MAX { "Missing".to_string() } else { x.to_string() };
    let look = |x: Option<String>| x.unwrap_or_default();
    let tmpl = |n: u8, t: u16| text(["3.1", "4.0", "5.0"][usize::from(n - 3)], &[], t);
    let surf = |k: usize| -> [String; 3] {
        m.prod.surfaces.map_or_else(Default::default, |f| {
            let (t, e, v) = f[k];
            [text("4.5", &[], t.into()), missing8(e), missing32(v)]
        })
    };
    let mut exp = vec![
        tmpl(3, m.grid.tmpl),
        m.npts.to_string(),
        tmpl(4, m.prod.tmpl),
        look(m.prod.cat.map(|c| text("4.1", &[msg.disc], c.into()))),
        look(m.prod.cat.zip(m.prod.num).map(|(c, n)| text("4.2", &[msg.disc, c], n.into()))),
        look(m.prod.genproc.map(|g| text("4.3", &[], g.into()))),
        look(m.prod.forecast.map(|f| f.1.to_string())),
        look(m.prod.forecast.map(|f| time_unit(f.0).map_or_else(|| format!("code {}", f.0), |u| u.0.to_string()))),
    ];
    exp.extend(surf(0));
    exp.extend(surf(1));
    exp.push(tmpl(5, m.repr));
    exp.push(m.nenc.to_string());
    let d = s.describe();
    let got: Vec<(&str, &str)> = d.lines().map(|l| l.split_once(':').map_or((l, ""), |(a, b)| (a.trim(), b.trim()))).collect();
    if got.len() != exp.len() {
        return viol("metadata", format!("submessage {:?}: the description has {} lines instead of {}", m.idx, got.len(), exp.len()));
    }
    for (i, ((label, g), e)) in got.iter().zip(&exp).enumerate() {
        if *g != e.trim() && !(i == 5 && unsure & 1 != 0 || (i == 6 || i == 7) && unsure & 2 != 0) {
            return viol("metadata", format!("submessage {:?}: the description says `{label}: {g}`, file says {e}", m.idx));
        }
    }
    if let (Some(f), Some((_, t)), 0) = (s.prod_def().forecast_time(), m.prod.forecast, unsure & 2) {
        let unit = m.prod.forecast.map_or(0, |f| f.0);
        let e = match time_unit(unit) {
            Some((_, "")) => format!("{t}"),
            Some((_, u)) => format!("{t} [{u}]"),
            None => format!("{t} [unit: {unit}]"),
        };
        w("forecast time as shown", f.to_string(), e)?;
    }
    if let (Some((a, b)), Some(f)) = (s.prod_def().fixed_surfaces(), m.prod.surfaces) {
        for (x, (_, e, v)) in [a, b].iter().zip(f) {
            let none = v == -i32::MAX;
            let g = x.value();
            let y = f64::from(v) * 10f64.powi(-i32::from(e));
            let ok = if none { g.is_nan() } else { (g - y).abs() <= y.abs() * 1e-12 };
            if !ok || x.value_is_nan() != none || x.scale_factor_is_nan() != (e == -127) {
                return viol("metadata", format!("submessage {:?}: fixed surface value {g}, file says {v} x 10^-{e}", m.idx));
            }
            let u = surface_unit(x.surface_type);
            if x.unit() != u {
                return viol("metadata", format!("submessage {:?}: fixed surface of type {} in {:?} instead of {u:?}", m.idx, x.surface_type, x.unit()));
            }
        }
    }
    Ok(())
}

pub fn check_ident(x: &grib::Identification, id: &IdModel, at: (usize, usize)) -> Result<(), Viol> {
    let got = (
        x.centre_id(),
        x.subcentre_id(),
        x.master_table_version(),
        x.local_table_version(),
        x.ref_time_significance(),
        x.prod_status(),
        x.data_type(),
    );
    let exp = (id.centre, id.subcentre, id.mtv, id.ltv, id.rts, id.status, id.dtype);
    if got != exp {
        return viol("metadata", format!("message of {at:?}: identification {got:?}, file says {exp:?}"));
    }
    let t = x.ref_time().map(|t| t.format("%Y-%m-%d %H:%M:%S").to_string()).ok();
    let (y, mo, d, h, mi, s) = id.date;
    let e = id.date_ok.then(|| format!("{}{y:04}-{mo:02}-{d:02} {h:02}:{mi:02}:{s:02}", if y > 9999 { "+" } else { "" }));
    if t != e {
        return viol("metadata", format!("message of {at:?}: reference time {t:?}, file says {e:?}"));
    }
    Ok(())
}

pub fn value_ok(got: f32, e: &Option<(f64, f64)>) -> bool {
    match e {
        None => got.is_nan(),
        Some((v, tol)) => (f64::from(got) - v).abs() <= *tol,
    }
}

/// Decodes and compares; Ok(None): refused as expected or an I/O error (returned) happened.
pub fn decode(s: Sub) -> Result<Vec<f32>, GribError> {
    let d = Grib2SubmessageDecoder::from(s)?;
    let it = d.dispatch()?;
    Ok(it.collect())
}

pub fn compare_values(got: &[f32], exp: &[Option<(f64, f64)>], idx: (usize, usize)) -> Result<(), Viol> {
    if got.len() != exp.len() {
        return viol("count", format!("submessage {idx:?}: {} values decoded, grid has {}", got.len(), exp.len()));
    }
    for (k, (g, e)) in got.iter().zip(exp).enumerate() {
        if !value_ok(*g, e) {
            return viol("value", format!("submessage {idx:?}: value {k} is {g}, encoded {:?}", e.map(|x| x.0)));
        }
    }
    Ok(())
}

/// Fault-free expectation on one submessage.
pub fn check_decode(s: Sub, m: &SubModel) -> Result<(), Viol> {
    judge_decode(decode(s), m)
}

pub fn judge_decode(r: Result<Vec<f32>, GribError>, m: &SubModel) -> Result<(), Viol> {
    match (r, &m.expect) {
        (Err(_), Expect::Refused) => Ok(()),
        (Ok(v), Expect::Refused) => viol("not-refused", format!("submessage {:?} (template {}, bitmap kind {}) is not supported but {} values were returned", m.idx, m.repr, m.bmp_kind, v.len())),
        (Err(e), Expect::Values(_)) => viol("refused", format!("submessage {:?} (template {}, nbit {}, {} of {} points) was refused: {e:?}", m.idx, m.repr, m.nbit, m.nenc, m.npts)),
        (Ok(v), Expect::Values(e)) => compare_values(&v, e, m.idx),
    }
}

// ---------------------------------------------------------------- grammar of the section sequence

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    Sect(u8),
    /// upstream error number k
    Fail(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Assembled {
    pub idx: (usize, usize),
    /// positions in the sequence of sections; 8: None for the dummy of all but the last submessage of a message
    pub s: [Option<usize>; 9],
}

#[derive(Clone, Debug, PartialEq)]
pub enum AsmErr {
    Upstream(usize),
    Order(usize),
    NoGrid(usize),
    End(usize),
}

/// The submessages and the final error, if any, of a sequence of sections (reference model).
pub fn assemble(evs: &[Ev]) -> (Vec<Assembled>, Option<AsmErr>) {
    let mut out = vec![];
    let mut cur: [Option<usize>; 9] = [None; 9];
    let (mut msg, mut sub) = (0, 0);
    let mut prev: Option<u8> = None; // None: between messages
    let mut grid = false;
    let mut last = 0;
    for (pos, ev) in evs.iter().enumerate() {
        let n = match ev {
            Ev::Fail(k) => return (out, Some(AsmErr::Upstream(*k))),
            Ev::Sect(n) => *n,
        };
        if prev == Some(7) && n != 8 {
            let mut s = cur;
            s[8] = None;
            out.push(Assembled { idx: (msg, sub), s });
            sub += 1;
        }
        last = pos;
        let ok = match prev {
            None => n == 0,
            Some(0) => n == 1,
            Some(1) => matches!(n, 2..=4),
            Some(7) => matches!(n, 2 | 3 | 4 | 8),
            Some(p) => n == p + 1,
        };
        if !ok {
            return (out, Some(AsmErr::Order(pos)));
        }
        match n {
            0 => {
                cur = [None; 9];
                grid = false;
            }
            3 => grid = true,
            4 if !grid => return (out, Some(AsmErr::NoGrid(pos))),
            _ => {}
        }
        cur[usize::from(n)] = Some(pos);
        prev = Some(n);
        if n == 8 {
            out.push(Assembled { idx: (msg, sub), s: cur });
            msg += 1;
            sub = 0;
            prev = None;
        }
    }
    let e = prev.is_some().then_some(AsmErr::End(last));
    (out, e)
}

pub fn asm_err_matches(e: &grib::ParseError, m: &AsmErr) -> bool {
    use grib::ParseError as P;
    match (e, m) {
        (P::InvalidSectionOrder(p), AsmErr::Order(q)) => p == q,
        (P::NoGridDefinition(p), AsmErr::NoGrid(q)) => p == q,
        (P::UnexpectedEndOfData(p), AsmErr::End(q)) => p == q,
        _ => false,
    }
}

/// Every message that the handle reports is entirely there.
pub fn audit<R>(h: &Grib2<R>, bytes: &[u8], start: usize) -> Result<usize, String> {
    let secs: Vec<_> = h.sections().collect();
    let mut i = 0;
    let mut floor = start;
    let mut msgs = 0;
    while i < secs.len() {
        let s0 = secs[i];
        if s0.num != 0 || s0.size != 16 {
            return Err(format!("entry {i} should begin a message but is {s0:?}"));
        }
        let off = s0.offset;
        if off < floor {
            return Err(format!("message at {off} begins before {floor}"));
        }
        let Some(hd) = bytes.get(off..off.saturating_add(16)) else {
            return Err(format!("indicator at {off} lies outside the source of {} octets", bytes.len()));
        };
        if &hd[..4] != b"GRIB" || hd[7] != 2 {
            return Err(format!("no GRIB2 message begins at {off}"));
        }
        body_matches(s0, bytes)?;
        let len = u64::from_be_bytes(hd[8..16].try_into().unwrap());
        let Some(end) = usize::try_from(len).ok().and_then(|l| off.checked_add(l)).filter(|e| *e <= bytes.len()) else {
            return Err(format!("message at {off} declares {len} octets but the source has {}", bytes.len()));
        };
        let mut pos = off + 16;
        i += 1;
        loop {
            let Some(s) = secs.get(i) else {
                return Err(format!("message at {off} is reported without its end section"));
            };
            i += 1;
            if s.offset != pos {
                return Err(format!("section {} reported at {}, previous one ends at {pos}", s.num, s.offset));
            }
            if s.num == 8 {
                if s.size != 4 || pos + 4 != end {
                    return Err(format!("end section at {pos} (size {}), message ends at {end}", s.size));
                }
                body_matches(s, bytes)?;
                break;
            }
            if pos + 5 > end {
                return Err(format!("section at {pos} lies outside the message ending at {end}"));
            }
            let size = u32::from_be_bytes(bytes[pos..pos + 4].try_into().unwrap()) as usize;
            if bytes[pos + 4] != s.num || size != s.size || size < 5 || pos + size > end {
                return Err(format!("section at {pos}: reported {} of {} octets, file has {} of {size}; message ends at {end}", s.num, s.size, bytes[pos + 4]));
            }
            body_matches(s, bytes)?;
            pos += size;
        }
        floor = end;
        msgs += 1;
    }
    let evs: Vec<Ev> = secs.iter().map(|s| Ev::Sect(s.num)).collect();
    let (subs, err) = assemble(&evs);
    if let Some(e) = err {
        return Err(format!("the reported sections violate the grammar: {e:?}"));
    }
    if h.len() != subs.len() {
        return Err(format!("{} submessages reported, the sections make {}", h.len(), subs.len()));
    }
    for (k, (idx, s)) in h.iter().enumerate() {
        let e = &subs[k];
        let got = [
            Some(s.0.index),
            Some(s.1.index),
            s.2.as_ref().map(|x| x.index),
            Some(s.3.index),
            Some(s.4.index),
            Some(s.5.index),
            Some(s.6.index),
            Some(s.7.index),
            if e.s[8].is_some() { Some(s.8.index) } else { None },
        ];
        if idx != e.idx || got != e.s {
            return Err(format!("submessage {k} is {idx:?} of sections {got:?}, expected {:?} of {:?}", e.idx, e.s));
        }
    }
    Ok(msgs)
}

pub fn lon_close(a: f64, b: f64) -> bool {
    let d = (a - b).rem_euclid(360.0);
    d.min(360.0 - d) < 4e-4
}

/// Grid indices and coordinates of a submessage; other threads run between the points.
pub fn check_coords(s: &Sub, m: &SubModel) -> Result<(), Viol> {
    let (ij, ll) = (ij_model(&m.grid), latlon_model(&m.grid));
    let bad = |what: &str, k: usize, got: String, exp: String| viol("coordinate", format!("submessage {:?}: {what} {k} is {got}, expected {exp} (grid {:?})", m.idx, m.grid));
    match (s.ij(), ij) {
        (Ok(it), Some(e)) => {
            let got: Vec<_> = it.inspect(|_| crate::io::yield_point()).take(e.len() + 1).collect();
            if let Some(k) = (0..e.len().max(got.len())).find(|k| got.get(*k) != e.get(*k)) {
                return bad("grid index", k, format!("{:?}", got.get(k)), format!("{:?}", e.get(k)));
            }
        }
        (Err(_), None) => {}
        (r, e) => return viol("coordinate", format!("submessage {:?}: grid indices are {:?}, expected {:?} (grid {:?})", m.idx, r.map(|_| ()), e.map(|_| ()), m.grid)),
    }
    match (s.latlons(), ll) {
        (Ok(it), Some(e)) => {
            let got: Vec<_> = it.inspect(|_| crate::io::yield_point()).take(e.len() + 1).collect();
            let same = |g: Option<&(f32, f32)>, e: Option<&(f64, f64)>| match (g, e) {
                (Some(g), Some(e)) => (f64::from(g.0) - e.0).abs() < 2e-4 && lon_close(g.1.into(), e.1),
                _ => false,
            };
            if let Some(k) = (0..e.len().max(got.len())).find(|k| !same(got.get(*k), e.get(*k))) {
                return bad("coordinate", k, format!("{:?}", got.get(k)), format!("{:?}", e.get(k)));
            }
        }
        (Err(_), None) => {}
        (r, e) => return viol("coordinate", format!("submessage {:?}: coordinates are {:?}, expected {:?} (grid {:?})", m.idx, r.map(|_| ()), e.map(|_| ()), m.grid)),
    }
    Ok(())
}
