//! C10, C11, C12: the real `gribber` under the fault-injecting libc layer.

use super::c03::{apply, Dmg};
use super::c08::{gen_poke, gen_resize, poke, resize, Poke, Resize};
use crate::enc::*;
use crate::proc::*;
use crate::rng::{mix, Rng};
use crate::runner::*;
use crate::spec::*;
use grib::codetables::*;
use grib::{Grib2, Grib2SubmessageDecoder, GribError, SectionBody, SeekableGrib2Reader};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::fs;
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};

type H = Grib2<SeekableGrib2Reader<Cursor<Vec<u8>>>>;

fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ").replace(" / ", "/").replace("/ ", "/").replace(" /", "/")
}

fn lines(text: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(text).lines().map(norm).filter(|l| !l.is_empty()).collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cmd {
    List,
    Dump,
    /// bits: sections, submessages, templates
    Inspect(u8),
    Info,
    Text,
    Big,
    Little,
}

fn cmd_of(k: u8) -> Cmd {
    match k % 14 {
        0 | 1 => Cmd::List,
        2 | 3 => Cmd::Dump,
        4 => Cmd::Inspect(0),
        5 => Cmd::Inspect(1),
        6 => Cmd::Inspect(2),
        7 => Cmd::Inspect(4),
        8 => Cmd::Inspect(3 + (k / 14) % 4),
        9 => Cmd::Info,
        10 | 11 => Cmd::Text,
        12 => Cmd::Big,
        _ => Cmd::Little,
    }
}

fn args(c: Cmd, input: &str, index: &str, out: &str) -> Vec<String> {
    let v: Vec<&str> = match c {
        Cmd::List => vec!["list", input],
        Cmd::Dump => vec!["list", "-d", input],
        Cmd::Inspect(b) => {
            let mut v = vec!["inspect"];
            for (k, f) in ["-s", "-m", "-t"].iter().enumerate() {
                if b >> k & 1 == 1 {
                    v.push(f);
                }
            }
            v.push(input);
            v
        }
        Cmd::Info => vec!["info", input],
        Cmd::Text => vec!["decode", input, index],
        Cmd::Big => vec!["decode", "-b", out, input, index],
        Cmd::Little => vec!["decode", "-l", out, input, index],
    };
    v.into_iter().map(String::from).collect()
}

fn surface(s: &grib::FixedSurface) -> String {
    format!("{}{}", s.value(), s.unit().map(|u| format!(" [{u}]")).unwrap_or_default())
}

/// The report that the command has to print, line by line (runs of blanks collapsed, empty lines left out), computed
/// through the library; Err: the command has to fail.
fn report(c: Cmd, h: &H, idx: (usize, usize)) -> Result<Vec<String>, String> {
    let mut v: Vec<String> = vec![];
    match c {
        Cmd::List => {
            v.push(norm("id │ Parameter Generating process Forecast time 1st fixed surface 2nd fixed surface │ #points (nan/total) grid type"));
            for (i, s) in h.iter() {
                let p = s.prod_def();
                let cat = p.parameter_category().zip(p.parameter_number());
                let cat = cat.map(|(c, n)| CodeTable4_2::new(s.indicator().discipline, c).lookup(usize::from(n)).to_string()).unwrap_or_default();
                let gen = p.generating_process().map(|g| CodeTable4_3.lookup(usize::from(g)).to_string()).unwrap_or_default();
                let ft = p.forecast_time().map(|f| f.to_string()).unwrap_or_default();
                let (a, b) = p.fixed_surfaces().map(|(a, b)| (surface(&a), surface(&b))).unwrap_or_default();
                let n = s.grid_def().num_points();
                let e = s.repr_def().num_points();
                let g = grib::GridDefinitionTemplateValues::try_from(s.grid_def()).map(|d| d.short_name().to_string()).unwrap_or_else(|_| format!("unknown (template {})", s.grid_def().grid_tmpl_num()));
                v.push(norm(&format!("{}.{} │ {cat} {gen} {ft} {a} {b} │ {}/{n} {g}", i.0, i.1, n.saturating_sub(e))));
            }
        }
        Cmd::Dump => {
            for (i, s) in h.iter() {
                v.push(format!("{}.{}", i.0, i.1));
                v.extend(s.describe().lines().map(norm).filter(|l| !l.is_empty()));
            }
        }
        Cmd::Inspect(b) => {
            let b = if b == 0 { 7 } else { b };
            let head = b.count_ones() > 1;
            if b & 1 > 0 {
                if head {
                    v.push("Sections:".into());
                }
                for (i, s) in h.sections().enumerate() {
                    v.push(format!("{i} │ {:016x} - {:016x} │ Section {}", s.offset, s.offset + s.size, s.num));
                }
            }
            if b & 2 > 0 {
                if head {
                    v.push("SubMessages:".into());
                }
                v.push("id │ S2 S3 S4 S5 S6 S7 │ Tmpl3 Tmpl4 Tmpl5".into());
                for (i, s) in h.iter() {
                    let t = |x: Option<grib::TemplateInfo>| x.map_or("-".to_string(), |t| format!("{}.{}", t.0, t.1));
                    let s2 = s.2.as_ref().map_or("-".to_string(), |x| x.index.to_string());
                    v.push(format!(
                        "{}.{} │ {s2} {} {} {} {} {} │ {} {} {}",
                        i.0, i.1, s.3.index, s.4.index, s.5.index, s.6.index, s.7.index,
                        t(s.3.template_code()), t(s.4.template_code()), t(s.5.template_code())
                    ));
                }
            }
            if b & 4 > 0 {
                if head {
                    v.push("Templates:".into());
                }
                for t in h.list_templates() {
                    v.push(norm(&match t.describe() {
                        Some(d) => format!("{}.{} - {d}", t.0, t.1),
                        None => format!("{}.{}", t.0, t.1),
                    }));
                }
            }
        }
        Cmd::Info => {
            for (i, s) in h.iter() {
                if i.1 != 0 {
                    continue;
                }
                let (Some(SectionBody::Section0(a)), Some(SectionBody::Section1(b))) = (&s.0.body.body, &s.1.body.body) else { continue };
                let t = b.ref_time().map_err(|e| format!("message {}: {e}", i.0))?;
                v.push(format!("Message {}", i.0));
                for (k, x) in [
                    ("Discipline:", CodeTable0_0.lookup(a.discipline as usize).to_string()),
                    ("Total Length:", a.total_length.to_string()),
                    ("Originating/generating centre:", CommonCodeTable11.lookup(b.centre_id() as usize).to_string()),
                    ("Originating/generating sub-centre:", b.subcentre_id().to_string()),
                    (
                        "GRIB Master Tables Version Number:",
                        format!("{} ({})", b.master_table_version(), CommonCodeTable00.lookup(b.master_table_version() as usize)),
                    ),
                    (
                        "GRIB Local Tables Version Number:",
                        format!("{} ({})", b.local_table_version(), CodeTable1_1.lookup(b.local_table_version() as usize)),
                    ),
                    ("Significance of Reference Time:", CodeTable1_2.lookup(b.ref_time_significance() as usize).to_string()),
                    ("Reference time of data:", t.to_string()),
                    ("Production status of processed data:", CodeTable1_3.lookup(b.prod_status() as usize).to_string()),
                    ("Type of processed data:", CodeTable1_4.lookup(b.data_type() as usize).to_string()),
                ] {
                    v.push(norm(&format!("{k} {x}")));
                }
            }
        }
        Cmd::Text => {
            let vals = values(h, idx)?;
            let (_, s) = h.iter().find(|(i, _)| *i == idx).ok_or("no such submessage")?;
            let ll: Vec<(f32, f32)> = match s.latlons() {
                Ok(it) => it.take(vals.len()).collect(),
                Err(GribError::NotSupported(_)) => vec![(f32::NAN, f32::NAN); vals.len()],
                Err(e) => return Err(format!("{e}")),
            };
            v.push("Latitude Longitude Value".into());
            for ((lat, lon), x) in ll.iter().zip(&vals) {
                v.push(format!("{lat:.6} {lon:.6} {x}"));
            }
            if ll.len() < vals.len() {
                v.push(format!("(only {} coordinates for {} values)", ll.len(), vals.len()));
            }
        }
        Cmd::Big | Cmd::Little => {}
    }
    Ok(v)
}

fn values(h: &H, idx: (usize, usize)) -> Result<Vec<f32>, String> {
    let (_, s) = h.iter().find(|(i, _)| *i == idx).ok_or("no such submessage")?;
    let d = Grib2SubmessageDecoder::from(s).map_err(|e| format!("{e:?}"))?;
    let it = d.dispatch().map_err(|e| format!("{e:?}"))?;
    Ok(it.collect())
}

fn same_values(file: &[u8], v: &[f32], big: bool) -> Result<(), String> {
    if file.len() != v.len() * 4 {
        return Err(format!("the file has {} octets instead of {}", file.len(), v.len() * 4));
    }
    for (k, (c, x)) in file.chunks(4).zip(v).enumerate() {
        let c: [u8; 4] = c.try_into().unwrap();
        let y = if big { f32::from_be_bytes(c) } else { f32::from_le_bytes(c) };
        if y.to_bits() != x.to_bits() && !(x.is_nan() && y.is_nan()) {
            return Err(format!("value {k} of the file is {y}, decoded {x}"));
        }
    }
    Ok(())
}

struct World {
    input: String,
    out_dir: String,
    out: String,
}

fn world(bytes: &[u8]) -> World {
    let d = scratch();
    let out_dir = d.join("out");
    let _ = fs::remove_dir_all(&out_dir);
    fs::create_dir_all(&out_dir).expect("scratch");
    let input = d.join("in.grib");
    fs::write(&input, bytes).expect("scratch");
    let s = |p: &std::path::Path| p.to_str().expect("path").to_string();
    World { input: s(&input), out: s(&out_dir.join("x.bin")), out_dir: s(&out_dir) + "/" }
}

fn gribber(w: &World, args: Vec<String>, plan: &Plan, st: &mut Stats) -> Outcome {
    let j = Job {
        program: bin_dir().join("gribber"),
        args,
        input: &w.input,
        out_dir: &w.out_dir,
        plan,
        env: vec![],
        cpu: 20,
        tracing: tracing(),
        cwd: None,
    };
    let o = run(&j);
    st.add("processes", 1);
    o.log.stats(st);
    digest_outcome(&o, st);
    o
}

/// It ends by itself, without a signal, and says something when it fails.
fn sane(o: &Outcome, what: &str) -> Result<(), Viol> {
    if o.timeout || o.log.budget || matches!(o.signal, Some(24) | Some(9)) {
        return viol("hang", format!("{what}: did not end (CPU, call or wall budget exhausted)"));
    }
    if let Some(s) = o.signal {
        return viol("signal", format!("{what}: killed by signal {s}: {}", o.err_text()));
    }
    if !o.ok() && o.stderr.is_empty() {
        return viol("silent", format!("{what}: {} without a message", o.status()));
    }
    Ok(())
}

fn panicked(o: &Outcome) -> bool {
    o.code == Some(101) || String::from_utf8_lossy(&o.stderr).contains("panicked at")
}

fn gen_plan(r: &mut Rng, classes: &[u8], calls: &[(u8, u8, u64)]) -> Plan {
    let mut p = Plan { rnd: r.u64(), ..Default::default() };
    for c in classes {
        if r.chance(1, 2) {
            p.legal.push(gen_legal(r, *c));
        }
    }
    if r.chance(2, 3) && !calls.is_empty() {
        let (cls, op, max) = *r.pick(calls);
        p.faults.push(PFault {
            cls,
            op,
            at: match r.below(3) {
                0 => r.below(3) as u32,
                1 => r.below(12) as u32,
                _ => r.below(max.max(1)) as u32,
            },
            kind: r.below(8) as u8,
            times: *r.pick(&[0u32, 1, 1, 2, 5]),
        });
    }
    p
}

// ---------------------------------------------------------------- C10

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc10 {
    file: FileSpec,
    sub: u32,
    big: bool,
    /// 0: no file, 1: a longer one, 2: a shorter one, 3: missing directory, 4: a directory is there
    prior: u8,
    plans: Vec<Plan>,
}

pub struct C10;

const CLI_REAL: &str = "the real gribber binary built from /repo/cli and /repo/src (without the feature gridpoints-proj: the PROJ library is absent), with clap, anyhow, std::io and libc above the system-call wrappers";
const CLI_STUB: &str = "open/read/write/seek/getrandom of libc for the input, the output file and standard output (real files below, faults injected by shim/shim.c); WMO code tables (stand-in CSV files)";

impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn count(&self) -> (u64, u64) {
        (12_000, 400_000)
    }
    fn real(&self) -> &'static str {
        CLI_REAL
    }
    fn stubs(&self) -> &'static str {
        CLI_STUB
    }
    fn processes(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "gribber exports one submessage of a generated file to a binary file: once without faults, then under several seeded plans (short and interrupted writes and reads, an error of any kind at a seeded write, open or read, a device with room for a seeded number of octets); evaluation: one process; non-trivial: a fault fired; distinct by digest over the system calls and results"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["errors that the kernel reports only at close() or after the exit of the process are not injected: std::fs::File cannot observe them", "the decoded values themselves are those of the library in process, which C02 checks"]
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> Value {
        let mut k = Knobs::pick(r);
        k.start = false;
        k.junk = false;
        k.max_msgs = 1 + r.below(2);
        k.max_subs = 1 + r.below(2);
        k.unsupported = r.chance(1, 10);
        if idx % 2 == 0 {
            k.packs = vec![0];
        }
        let mut file = gen_file(r, &k);
        // sizes around multiples of the buffer of the writer, and large ones
        if r.chance(2, 3) {
            for m in &mut file.msgs {
                for s in &mut m.subs {
                    let n = match r.below(6) {
                        0 => (2048 * (1 + r.below(3)) as i64 + r.range(-3, 3)) as u32,
                        1 => 1 + r.below(40) as u32,
                        2 => 2048 * (1 + r.below(4) as u32),
                        3 => 1 + r.below(20_000) as u32,
                        _ => 1 + r.below(5000) as u32,
                    };
                    s.grid.ni = n;
                    s.grid.nj = 1;
                    if s.grid.tmpl == 40 {
                        s.grid.tmpl = 0;
                    }
                }
            }
        }
        if idx % 150 == 75 {
            file = gen_scale_moderate(r, if idx % 600 == 75 { idx / 600 % 4 } else { 4 });
        }
        let b = build(&file);
        let sub = r.below(b.subs.len().max(1) as u64) as u32;
        let npts = b.subs.get(sub as usize).map_or(1, |s| s.npts as u64);
        let n = 4 + r.below(if t == Tier::Quick { 4 } else { 8 });
        let plans = (0..n)
            .map(|_| {
                let mut p = gen_plan(r, &[0, 1], &[(1, 2, npts * 4 / 8192 + 2), (1, 2, npts * 4 / 8192 + 2), (1, 0, 1), (0, 1, 12), (0, 3, 8)]);
                if r.chance(1, 3) {
                    let total = npts * 4;
                    let room = match r.below(5) {
                        0 => r.below(20),
                        1 => total.saturating_sub(1 + r.below(9)),
                        2 => total.saturating_sub(1),
                        3 => total / 8192 * 8192,
                        _ => r.below(total + 3),
                    };
                    p.room.push((1, room as u32));
                }
                p
            })
            .collect();
        let prior = if r.chance(1, 8) { 3 + r.below(2) as u8 } else { r.below(3) as u8 };
        serde_json::to_value(Sc10 { file, sub, big: r.chance(1, 2), prior, plans }).unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc10 = serde_json::from_value(sc.clone()).unwrap_or_default();
        let mut spec = sc.file.clone();
        spec.start = 0;
        let b = build(&spec);
        if b.subs.is_empty() {
            return Ok(());
        }
        let m = &b.subs[sc.sub as usize % b.subs.len()];
        let Ok(h) = grib::from_reader(Cursor::new(b.bytes.clone())) else { return Ok(()) };
        let exp = values(&h, m.idx);
        let w = world(&b.bytes);
        let big = sc.big;
        let idx = format!("{}.{}", m.idx.0, m.idx.1);
        let out = match sc.prior {
            3 => format!("{}missing/x.bin", w.out_dir),
            _ => w.out.clone(),
        };
        let clean = Plan { rnd: 1, ..Default::default() };
        for (k, p) in std::iter::once(&clean).chain(&sc.plans).enumerate() {
            let _ = fs::remove_file(&w.out);
            let _ = fs::remove_dir(&w.out);
            match sc.prior {
                1 => fs::write(&w.out, vec![0xa5u8; m.npts * 4 + 4097]).expect("scratch"),
                2 => fs::write(&w.out, vec![0xa5u8; m.npts.min(3)]).expect("scratch"),
                4 => fs::create_dir_all(&w.out).expect("scratch"),
                _ => {}
            }
            let o = gribber(&w, args(if big { Cmd::Big } else { Cmd::Little }, &w.input, &idx, &out), p, st);
            st.evals += 1;
            let what = format!("run {k}, export of {idx} ({} points) with plan [{}]", m.npts, p.text());
            sane(&o, &what)?;
            let hard = o.log.hard();
            st.nontrivial |= hard + o.log.shorts[1] + o.log.intrs[1] > 0;
            if o.ok() {
                if sc.prior >= 3 {
                    return viol("export", format!("{what}: success though the output file cannot be created"));
                }
                let file = fs::read(&out).unwrap_or_default();
                match &exp {
                    Err(e) => return viol("export", format!("{what}: success though the submessage cannot be decoded ({e})")),
                    Ok(v) => {
                        if v.len() != m.npts {
                            return Ok(()); // C02
                        }
                        if let Err(e) = same_values(&file, v, big) {
                            let class = if o.log.hard_of(1) > 0 { "incomplete" } else { "export" };
                            return viol(class, format!("{what}: success, but {e}"));
                        }
                    }
                }
                st.add("exports_complete", 1);
            } else {
                st.add("exports_failed", 1);
                if panicked(&o) {
                    return viol("panic", format!("{what}: {}", o.err_text()));
                }
                if hard == 0 && sc.prior < 3 && exp.is_ok() {
                    return viol("refused", format!("{what}: {} without any error: {}", o.status(), o.err_text()));
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C11

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc11 {
    file: FileSpec,
    cmd: u8,
    sub: u32,
    plans: Vec<Plan>,
    /// runs at a terminal
    at_term: Vec<Plan>,
    /// != 0: the completions for a shell are asked for instead
    shell: u8,
}

const SHELLS: [&str; 5] = ["bash", "zsh", "fish", "elvish", "powershell"];

pub struct C11;

fn compare_text(got: &[u8], exp: &[String]) -> Result<(), String> {
    let g = lines(got);
    for (k, (a, b)) in g.iter().zip(exp).enumerate() {
        if a != b {
            return Err(format!("line {k} is `{a}`, expected `{b}`"));
        }
    }
    if g.len() != exp.len() {
        return Err(format!("{} lines instead of {}; first difference: {:?} against {:?}", g.len(), exp.len(), g.get(exp.len()), exp.get(g.len())));
    }
    if got.last().is_some_and(|c| *c != b'\n') {
        return Err("the last line is not ended".into());
    }
    Ok(())
}

/// What a terminal shows of it: without the sequences that select a style.
fn shown(t: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(t.len());
    let mut k = 0;
    while k < t.len() {
        if t[k..].starts_with(b"\x1b[") {
            match t[k + 2..].iter().position(|c| !(c.is_ascii_digit() || *c == b';')) {
                Some(n) if t[k + 2 + n] == b'm' => {
                    k += n + 3;
                    continue;
                }
                Some(_) => {}
                // cut off
                None => break,
            }
        } else if t[k..] == *b"\x1b" {
            break;
        }
        v.push(t[k]);
        k += 1;
    }
    v
}

impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn count(&self) -> (u64, u64) {
        (15_000, 450_000)
    }
    fn real(&self) -> &'static str {
        CLI_REAL
    }
    fn stubs(&self) -> &'static str {
        CLI_STUB
    }
    fn processes(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "one subcommand (list, list -d, inspect in all option combinations, info, decode as text) on a generated file: once without faults, compared line by line with the report computed through the library and with the encoder's counts, then under several seeded plans on standard output (short and interrupted writes, an error at a seeded write, limited room), and at a simulated terminal of a seeded height, where a long report goes through a pager (whose reads are seeded; fork can fail, the pager may be missing or be left early); 1 scenario in 40 asks for shell completions instead; evaluation: one process; non-trivial: a fault fired or a pager ran; distinct by digest over the system calls and results"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the terminal and the pager (`less`, `more`) are simulated: what is judged there is the text without the styles", "runs of blanks and empty lines of the report are not compared with the model (they are compared between the runs)"]
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> Value {
        let mut k = Knobs::pick(r);
        k.start = false;
        k.big_chance = 0;
        k.unsupported = r.chance(1, 6);
        k.max_msgs = *r.pick(&[1, 2, 5, 12]);
        let large = (idx % 300 == 155).then(|| idx / 300 % 6);
        let cmd = match large {
            Some(4 | 5) => 10,
            Some(_) => r.below(56) as u8,
            None => (idx % 56) as u8,
        };
        if matches!(cmd_of(cmd), Cmd::Text | Cmd::Big | Cmd::Little) {
            k.max_msgs = 2;
        }
        let mut file = gen_file(r, &k);
        let mut sub = r.below(24);
        if let Some(what) = large {
            file = gen_scale_moderate(r, what);
            sub = r.below(70_000);
        }
        let n = 3 + r.below(if t == Tier::Quick { 4 } else { 8 });
        let plans = (0..n)
            .map(|_| {
                let mut p = gen_plan(r, &[0, 2], &[(2, 2, 60), (2, 2, 60), (2, 2, 600)]);
                if r.chance(1, 3) {
                    p.room.push((2, *r.pick(&[0u32, 1, 10, 79, 100, 500, 1000, 1024, 4000, 20_000]) + r.below(80) as u32));
                }
                p
            })
            .collect();
        let at_term = (0..1 + r.below(2))
            .map(|_| {
                let mut p = gen_plan(r, &[0, 2], &[]);
                p.term = Some(Term {
                    rows: *r.pick(&[1u16, 1, 2, 5, 24, 24, 60, 300]),
                    mode: *r.pick(&[0u8, 0, 0, 1, 2, 3]),
                    seed: r.u64(),
                    quit: *r.pick(&[0u32, 1, 80, 1000, 5000, 70_000]),
                    no_less: r.chance(1, 6),
                });
                p
            })
            .collect();
        serde_json::to_value(Sc11 { file, cmd, sub: sub as u32, plans, at_term, shell: if r.chance(1, 40) { 1 + r.below(5) as u8 } else { 0 } }).unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc11 = serde_json::from_value(sc.clone()).unwrap_or_default();
        let mut spec = sc.file.clone();
        spec.start = 0;
        let b = build(&spec);
        if b.subs.is_empty() {
            return Ok(());
        }
        let c = match cmd_of(sc.cmd) {
            Cmd::Big | Cmd::Little => Cmd::Text,
            c => c,
        };
        let m = &b.subs[sc.sub as usize % b.subs.len()];
        let Ok(h) = grib::from_reader(Cursor::new(b.bytes.clone())) else { return Ok(()) };
        let exp = report(c, &h, m.idx);
        let w = world(&b.bytes);
        let idx = format!("{}.{}", m.idx.0, m.idx.1);
        let shell = (sc.shell > 0).then(|| SHELLS[usize::from(sc.shell - 1) % 5]);
        let a = match shell {
            Some(s) => vec!["completions".to_string(), s.to_string()],
            None => args(c, &w.input, &idx, &w.out),
        };
        let what = match shell {
            Some(s) => format!("completions for {s}"),
            None => format!("{:?} of {} messages, {} submessages", &a[..a.len() - 1], b.msgs.len(), b.subs.len()),
        };
        let o = gribber(&w, a.clone(), &Plan { rnd: 1, ..Default::default() }, st);
        sane(&o, &what)?;
        if panicked(&o) {
            return viol("panic", format!("{what}: {}", o.err_text()));
        }
        match (&exp, o.ok()) {
            _ if shell.is_some() => {
                let t = String::from_utf8_lossy(&o.stdout);
                if !o.ok() || ["info", "inspect", "list", "decode", "completions"].iter().any(|c| !t.contains(c)) {
                    return viol("report", format!("{what}: {}, {} octets, not all of the commands are in it", o.status(), t.len()));
                }
            }
            (Ok(e), true) => {
                if let Err(x) = compare_text(&o.stdout, e) {
                    return viol("report", format!("{what}: {x}"));
                }
                let n = match c {
                    Cmd::List => Some(1 + b.subs.len()),
                    Cmd::Inspect(1) => Some(b.sects.len()),
                    Cmd::Inspect(2) => Some(1 + b.subs.len()),
                    Cmd::Info => Some(11 * b.msgs.len()),
                    Cmd::Text => Some(1 + m.npts),
                    _ => None,
                };
                if n.is_some_and(|n| n != e.len()) {
                    return viol("report", format!("{what}: {} lines, the file makes {n:?}", e.len()));
                }
            }
            (Ok(_), false) => return viol("refused", format!("{what}: {}: {}", o.status(), o.err_text())),
            (Err(e), true) => return viol("report", format!("{what}: success though it cannot succeed ({e})")),
            (Err(_), false) => {}
        }
        st.evals += 1;
        st.add(&shell.map_or_else(|| format!("command:{c:?}"), |_| "command:Completions".into()), 1);
        for (k, p) in sc.plans.iter().enumerate() {
            let f = gribber(&w, a.clone(), p, st);
            st.evals += 1;
            let what = format!("run {k}, {what} with plan [{}]", p.text());
            sane(&f, &what)?;
            let hard = f.log.hard_of(2);
            st.nontrivial |= hard + f.log.shorts[2] + f.log.intrs[2] > 0;
            if f.ok() != o.ok() && hard == 0 {
                return viol("status", format!("{what}: {} without any error on standard output, before: {}: {}", f.status(), o.status(), f.err_text()));
            }
            if f.ok() && f.stdout != o.stdout {
                return viol("lost-output", format!("{what}: success, but {} octets were printed instead of {}", f.stdout.len(), o.stdout.len()));
            }
            if hard == 0 && f.stdout != o.stdout {
                return viol("lost-output", format!("{what}: output differs without any error on standard output"));
            }
        }
        for (k, p) in sc.at_term.iter().enumerate() {
            let Some(t) = &p.term else { continue };
            let f = gribber(&w, a.clone(), p, st);
            st.evals += 1;
            let paged = f.log.pagers > 0;
            let mode = if paged || t.mode == 1 { t.mode % 4 } else { 0 };
            let what = format!("terminal run {k} ({} rows, {}), {what} with plan [{}]", t.rows, if paged { "pager" } else { "no pager" }, p.text());
            sane(&f, &what)?;
            st.add(if paged { "terminal_with_pager" } else { "terminal" }, 1);
            st.add(["fault:pager_none", "fault:fork_failed", "fault:pager_not_executed", "fault:pager_left"][usize::from(mode)], u64::from(mode > 0));
            st.nontrivial |= paged;
            let text = shown(&f.stdout);
            if f.ok() != o.ok() {
                return viol("status", format!("{what}: {}, not at a terminal: {}: {}", f.status(), o.status(), f.err_text()));
            }
            if paged && mode == 0 && f.log.child != 1000 {
                return viol("status", format!("{what}: the process that prints into the pager ended with {}: {}", f.log.child, f.err_text()));
            }
            let whole = if paged && mode == 3 {
                o.stdout.starts_with(&text) && (text.len() == o.stdout.len() || f.stdout.len() == t.quit as usize)
            } else {
                text == o.stdout
            };
            if o.ok() && !whole {
                return viol("lost-output", format!("{what}: the terminal shows {} octets instead of {}", text.len(), o.stdout.len()));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C12

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc12 {
    file: FileSpec,
    cmd: u8,
    sub: u32,
    /// 0: an existing submessage; otherwise one of several requests that cannot be met
    bad_index: u8,
    damage: Vec<Dmg>,
    pokes: Vec<Poke>,
    resize: Vec<Resize>,
    /// != 0: cut the file at this octet
    cut: u32,
    /// 0: the file; 1: missing, 2: a directory, 3: empty
    kind: u8,
    plans: Vec<Plan>,
}

pub struct C12;

impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn count(&self) -> (u64, u64) {
        (26_000, 900_000)
    }
    fn real(&self) -> &'static str {
        CLI_REAL
    }
    fn stubs(&self) -> &'static str {
        CLI_STUB
    }
    fn processes(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "any subcommand on a good, torn, damaged, empty or missing file, with existing and impossible submessage indices, without faults and under several seeded plans on the input (short and interrupted reads, an error at a seeded open, read or seek); success must come with the report that the library gives for the same bytes; evaluation: one process; non-trivial: the file is damaged or a fault fired; distinct by digest over the system calls and results"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["damaged files that declare more than 300 000 points per grid are listed but not decoded (bounded, but not affordable here)"]
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> Value {
        let mut k = Knobs::pick(r);
        k.start = false;
        k.big_chance = 0;
        k.max_side = *r.pick(&[3u64, 6, 12, 30]);
        k.max_msgs = *r.pick(&[1, 2, 3]);
        let mut file = gen_file(r, &k);
        if r.chance(3, 4) {
            for m in &mut file.msgs {
                m.junk %= 60;
            }
        }
        let mut sub = r.below(24);
        if idx % 300 == 155 {
            file = gen_scale_moderate(r, idx / 300);
            sub = r.below(70_000);
        }
        let len = build(&file).bytes.len() as u64;
        let cmd = if idx % 300 == 155 { r.below(56) } else { idx % 56 } as u8;
        let mode = r.below(10);
        let (mut damage, mut pokes, mut sizes, mut cut) = (vec![], vec![], vec![], 0);
        match mode {
            0..=2 => pokes = (0..1 + r.below(3)).map(|_| gen_poke(r)).collect(),
            3 => damage = (0..1 + r.below(2)).map(|_| Dmg { kind: r.below(10) as u8, at: r.below(1 << 20) as u32, val: r.u64() }).collect(),
            4 if r.chance(1, 2) => sizes = (0..1 + r.below(2)).map(|_| gen_resize(r)).collect(),
            4 => cut = 1 + r.below(len.max(1)) as u32,
            _ => {}
        }
        let n = if mode < 5 { r.below(2) } else { 3 + r.below(if t == Tier::Quick { 4 } else { 8 }) };
        let plans = (0..n).map(|_| gen_plan(r, &[0], &[(0, 0, 1), (0, 1, 40), (0, 1, 40), (0, 3, 20), (0, 3, 60)])).collect();
        serde_json::to_value(Sc12 {
            file,
            cmd,
            sub: sub as u32,
            bad_index: if r.chance(1, 6) { 1 + r.below(13) as u8 } else { 0 },
            damage,
            pokes,
            resize: sizes,
            cut,
            kind: if r.chance(1, 30) { 1 + r.below(3) as u8 } else { 0 },
            plans,
        })
        .unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc12 = serde_json::from_value(sc.clone()).unwrap_or_default();
        let mut spec = sc.file.clone();
        spec.start = 0;
        let b = build(&spec);
        if b.subs.is_empty() {
            return Ok(());
        }
        let mut bytes = apply(&b, &sc.damage);
        poke(&b, &mut bytes, &sc.pokes, 0);
        if sc.damage.is_empty() {
            resize(&b, &mut bytes, &sc.resize);
        }
        if sc.cut > 0 {
            bytes.truncate(sc.cut as usize);
        }
        if sc.kind == 3 {
            bytes.clear();
        }
        let damaged = bytes != b.bytes;
        let m = &b.subs[sc.sub as usize % b.subs.len()];
        let nm = b.msgs.len();
        let big = [0usize, 1, 3, 255, 256, 65_535, 1 << 32, usize::MAX];
        let at = big[(m.idx.0 + sc.sub as usize) % 8];
        let (index, want) = match sc.bad_index % 14 {
            11 => (format!("{}.{}", m.idx.0, b.msgs[m.idx.0].nsubs.max(at)), Some((m.idx.0, b.msgs[m.idx.0].nsubs.max(at)))),
            12 => (format!("{}.{}", nm.max(at), m.idx.1), Some((nm.max(at), m.idx.1))),
            13 => (format!("{:06}.{:04}", m.idx.0, m.idx.1), Some(m.idx)),
            0 => (format!("{}.{}", m.idx.0, m.idx.1), Some(m.idx)),
            1 => (format!("{nm}.0"), Some((nm, 0))),
            2 => (format!("0.{}", b.msgs[0].nsubs), Some((0, b.msgs[0].nsubs))),
            3 => ("18446744073709551615.18446744073709551615".into(), Some((usize::MAX, usize::MAX))),
            4 => ("18446744073709551616.0".into(), None),
            5 => ("0.99999999999999999999999999".into(), None),
            6 => ("0".into(), None),
            7 => ("".into(), None),
            8 => ("a.b".into(), None),
            9 => ("0.0.0".into(), None),
            _ => (" 0.0".into(), None),
        };
        // what the library says about the same bytes; its own panics are judged by C08, gribber's here
        let lib = catch_unwind(AssertUnwindSafe(|| grib::from_reader(Cursor::new(bytes.clone())).ok().filter(|h| !h.is_empty()))).unwrap_or(None);
        let mut c = cmd_of(sc.cmd);
        if let Some(h) = &lib {
            let huge = catch_unwind(AssertUnwindSafe(|| h.iter().any(|(_, s)| s.grid_def().num_points() > 300_000 || s.grid_shape().is_ok_and(|x| x.0.max(x.1) > 300_000)))).unwrap_or(true);
            if huge && matches!(c, Cmd::Text | Cmd::Big | Cmd::Little) {
                st.add("not_decoded_because_huge", 1);
                c = Cmd::List;
            }
        }
        let decode = matches!(c, Cmd::Text | Cmd::Big | Cmd::Little);
        let none = || Err("the file cannot be read".to_string());
        let guard = |f: &dyn Fn(&H) -> Result<Vec<String>, String>| match &lib {
            Some(h) => catch_unwind(AssertUnwindSafe(|| f(h))).unwrap_or_else(|_| Err("panic".into())),
            None => none(),
        };
        let exp = match (decode, want) {
            (true, None) => Err("no such submessage".to_string()),
            (false, _) => guard(&|h| report(c, h, m.idx)),
            (true, Some(i)) if c == Cmd::Text => guard(&|h| report(c, h, i)),
            (true, Some(i)) => guard(&|h| values(h, i).map(|v| v.iter().map(|x| x.to_bits().to_string()).collect())),
        };
        let exp = if sc.kind == 1 || sc.kind == 2 { none() } else { exp };
        let mut w = world(&bytes);
        match sc.kind {
            1 => w.input = format!("{}missing.grib", w.out_dir),
            2 => w.input = w.out_dir.clone(),
            _ => {}
        }
        let a = args(c, &w.input, &index, &w.out);
        let mut first: Option<Outcome> = None;
        for (k, p) in std::iter::once(&Plan { rnd: 1, ..Default::default() }).chain(&sc.plans).enumerate() {
            let _ = fs::remove_file(&w.out);
            let o = gribber(&w, a.clone(), p, st);
            st.evals += 1;
            let what = format!("run {k}, {:?} on a {} file with plan [{}]", a.iter().filter(|x| !x.contains('/')).collect::<Vec<_>>(), if damaged { "damaged" } else { "good" }, p.text());
            sane(&o, &what)?;
            if panicked(&o) {
                return viol("panic", format!("{what}: {}", o.err_text()));
            }
            st.nontrivial |= damaged || o.log.hard() + o.log.shorts[0] + o.log.intrs[0] > 0;
            if o.ok() {
                st.add("succeeded", 1);
                let r = match (&exp, c) {
                    (Err(e), _) => Err(format!("it cannot succeed: {e}")),
                    (Ok(e), Cmd::Big | Cmd::Little) => {
                        let v: Vec<f32> = e.iter().map(|x| f32::from_bits(x.parse().unwrap_or(0))).collect();
                        same_values(&fs::read(&w.out).unwrap_or_default(), &v, c == Cmd::Big)
                    }
                    (Ok(e), _) => compare_text(&o.stdout, e),
                };
                if let Err(e) = r {
                    return viol("wrong-success", format!("{what}: success, but {e}"));
                }
            } else {
                st.add("failed", 1);
                if !damaged && exp.is_ok() && o.log.hard() == 0 {
                    return viol("refused", format!("{what}: {} on a good file without any fault: {}", o.status(), o.err_text()));
                }
            }
            if o.log.hard() == 0 {
                match &first {
                    None => first = Some(o),
                    Some(f) => {
                        if f.stdout != o.stdout || f.code != o.code {
                            return viol("delivery", format!("{what}: {} and {} octets of output, without short or interrupted reads: {} and {}", o.status(), o.stdout.len(), f.status(), f.stdout.len()));
                        }
                    }
                }
            }
            st.mix(mix(k as u64));
        }
        Ok(())
    }
}
