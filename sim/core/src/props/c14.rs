//! C14: the parameter-code enum is a faithful, repeatable image of its table. The real compiler with the real
//! procedural macro runs as a process under the libc layer; tables, delivery, faults and hash seeds are generated.

use crate::proc::*;
use crate::rng::{hash_str, Rng};
use crate::runner::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::OnceLock;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
struct Row {
    code: [u8; 3],
    name: u32,
    other: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
struct Table {
    rows: Vec<Row>,
    /// != 0: damage
    bad: u8,
    at: u32,
    style: u8,
}

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc {
    tables: Vec<Table>,
    /// delivery and hash seed while the program is compiled (faults are not used)
    build: Plan,
    plans: Vec<Plan>,
    probes: u64,
}

fn name(seed: u32) -> String {
    const W: [&str; 24] = [
        "TMP", "VTMP", "U-GWD", "U_GWD", "4LFTX", "NO-4LFTX", "A", "a", "CAPE", "var0_1", "-", "RH-2m", "Self", "crate", "Ok", "Err", "fn", "0", "T", "u32", "A-", "-A", "A--B", "value",
    ];
    let w = W[seed as usize % 24];
    match seed / 24 {
        0 | 1 => w.to_string(),
        n => format!("{w}{}{}", if n % 3 == 0 { "-" } else { "" }, n / 2),
    }
}

fn text(seed: u32) -> String {
    const W: [&str; 16] = ["Temperature", "", " ", "say \"x\"", "back\\slash", "*/", "{}", "| a |", "#[doc]", "é–µ", "\u{1f30d}", "K m^-2", "'", "\t", "]]>", "`code`"];
    let mut r = Rng::new(u64::from(seed));
    (0..r.below(4)).map(|_| W[r.us(16)]).collect::<Vec<_>>().join(" ")
}

fn normal(n: &str) -> String {
    format!("_{}", n.replace('-', "_"))
}

fn id(c: [u8; 3]) -> u32 {
    u32::from(c[0]) << 16 | u32::from(c[1]) << 8 | u32::from(c[2])
}

/// None: no such file
fn encode(t: &Table) -> Option<Vec<u8>> {
    let mut names: BTreeMap<u32, String> = BTreeMap::new();
    let mut lines: Vec<Vec<u8>> = vec![];
    // the same code under two abbreviations has no faithful image
    let rows: Vec<&Row> = t.rows.iter().filter(|r| *names.entry(id(r.code)).or_insert_with(|| normal(&name(r.name))) == normal(&name(r.name))).collect();
    let at = if rows.is_empty() { 0 } else { t.at as usize % rows.len() };
    for (i, row) in rows.iter().enumerate() {
        let mut o = Rng::new(u64::from(row.other));
        let [d, c, n] = row.code;
        let mut f: Vec<Vec<u8>> = [
            d.to_string(),
            ["1", "0", "x", ""][o.us(4)].to_string(),
            o.below(256).to_string(),
            o.below(256).to_string(),
            o.below(65536).to_string(),
            o.below(256).to_string(),
            c.to_string(),
            n.to_string(),
            name(row.name),
            text(o.u64() as u32),
            text(o.u64() as u32).trim().to_string() + if o.chance(1, 8) { ":more" } else { "" },
        ]
        .into_iter()
        .map(String::into_bytes)
        .collect();
        if i == at {
            let k = (t.at >> 8) as usize;
            match t.bad {
                1 => {
                    f.truncate(10 - k % 3);
                }
                2 => {
                    let col = [0, 2, 3, 4, 5, 6, 7][k % 7];
                    f[col] = ["x", "", "-1", "65536", " 1", "1.0"][k / 7 % 6].as_bytes().to_vec();
                }
                3 => f[9].push(0xc3),
                4 => lines.push(vec![]),
                8 => lines.push(b"# a comment".to_vec()),
                _ => {}
            }
        }
        let mut l = f.join(&b':');
        if t.style & 1 != 0 {
            l.extend_from_slice(b"  ");
        }
        lines.push(l);
    }
    let nl: &[u8] = if t.style & 2 != 0 { b"\r\n" } else { b"\n" };
    let mut b = lines.join(nl);
    if t.style & 4 == 0 && !lines.is_empty() {
        b.extend_from_slice(nl);
    }
    match t.bad {
        5 | 6 => None,
        7 => {
            b.truncate(t.at as usize % (b.len() + 1));
            Some(b)
        }
        _ => Some(b),
    }
}

/// (code, variant) of every record; None: the file cannot be read as a table
fn model(b: &[u8]) -> Option<Vec<(u32, String)>> {
    let s = std::str::from_utf8(b).ok()?;
    let mut v = vec![];
    for l in s.lines() {
        let f: Vec<&str> = l.trim_end().split(':').collect();
        if f.len() < 11 {
            return None;
        }
        let u = |i: usize| f[i].parse::<u8>().ok();
        (u(2)?, u(3)?, f[4].parse::<u16>().ok()?, u(5)?);
        v.push((id([u(0)?, u(6)?, u(7)?]), normal(f[8])));
    }
    Some(v)
}

fn rustc() -> &'static Path {
    static R: OnceLock<PathBuf> = OnceLock::new();
    R.get_or_init(|| {
        let o = Command::new("rustc").env("RUSTUP_TOOLCHAIN", "stable").args(["--print", "sysroot"]).output().expect("rustc");
        Path::new(String::from_utf8_lossy(&o.stdout).trim()).join("bin/rustc")
    })
}

fn library() -> PathBuf {
    let mut best = None;
    for e in fs::read_dir(bin_dir().join("deps")).into_iter().flatten().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if n.starts_with("libgrib_codegen-") && n.ends_with(".so") {
            let m = e.metadata().and_then(|m| m.modified()).ok();
            if best.as_ref().is_none_or(|(t, _)| m > *t) {
                best = Some((m, e.path()));
            }
        }
    }
    best.expect("library of grib-codegen").1
}

const LINES: usize = 5;

/// The tables that the compiler reported an error in (1-based line / LINES)
fn flagged(stderr: &[u8], src: &str) -> BTreeSet<usize> {
    let t = String::from_utf8_lossy(stderr);
    let mut s = BTreeSet::new();
    for l in t.lines() {
        let Some(rest) = l.strip_prefix(src).and_then(|l| l.strip_prefix(':')) else { continue };
        let Some((line, rest)) = rest.split_once(':') else { continue };
        let Some((_, rest)) = rest.split_once(':') else { continue };
        if rest.trim_start().starts_with("error") {
            if let Ok(n) = line.parse::<usize>() {
                s.insert((n - 1) / LINES);
            }
        }
    }
    s
}

pub struct C14;

impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn count(&self) -> (u64, u64) {
        (700, 18_000)
    }
    fn real(&self) -> &'static str {
        "the procedural macro of grib-codegen as compiled from /repo, run by the real rustc (parse, expansion, type check, code generation, link); the resulting program"
    }
    fn stubs(&self) -> &'static str {
        "libc layer of the compiler process (shim/shim.c) for the table files; getrandom (hash seeds)"
    }
    fn processes(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "a seeded batch of tables (all codes, repeated codes and abbreviations, abbreviations equal after normalisation, damaged, cut and missing tables); the good ones are compiled into a program with an exhaustive match over the expected variants, which answers probes compared with a model; the batch is expanded under several hash seeds, short and interrupted reads and read or open errors: equal text, or errors at exactly the tables that were damaged or hit; non-trivial: a table was damaged or hit, or delivered in pieces; distinct by digest over system calls, expansions and errors"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["no table lists one code under two different abbreviations (there is no faithful image)", "abbreviations form Rust identifiers once `-` is replaced", "empty tables are not judged"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let n = 1 + r.below(14);
        let damaged = r.chance(1, 2);
        let tables: Vec<Table> = (0..n)
            .map(|_| {
                let len = 1 + r.below(*r.clone().pick(&[1u64, 3, 8, 20, 60]));
                let spread = *r.pick(&[2u64, 4, 256]);
                let names = *r.pick(&[3u64, 12, 24, 200]);
                let mut rows: Vec<Row> = vec![];
                for _ in 0..len {
                    let mut b = || {
                        let x = r.below(spread) as u8;
                        if r.chance(1, 6) {
                            255 - x
                        } else {
                            x
                        }
                    };
                    let code = [b(), b(), b()];
                    let mut row = Row { code, name: r.below(names) as u32, other: r.u64() as u32 };
                    if let (true, Some(p)) = (r.chance(1, 8), rows.last()) {
                        row.code = p.code;
                        row.name = p.name;
                    }
                    rows.push(row);
                }
                Table { rows, bad: if damaged && r.chance(1, 3) { 1 + r.below(8) as u8 } else { 0 }, at: r.u64() as u32, style: r.below(8) as u8 }
            })
            .collect();
        let legal = |r: &mut Rng| if r.chance(2, 3) { vec![gen_legal(r, 0)] } else { vec![] };
        let build = Plan { rnd: r.u64(), legal: legal(r), ..Default::default() };
        let plans = (0..4)
            .map(|k| {
                let mut p = Plan { rnd: r.u64(), legal: legal(r), ..Default::default() };
                if k > 1 {
                    let op = *r.pick(&[0u8, 1, 1]);
                    p.faults.push(PFault { cls: 0, op, at: r.below(n * if op == 0 { 1 } else { 3 }) as u32, kind: r.below(6) as u8, times: *r.pick(&[0u32, 1, 1, 1, 2]) });
                }
                p
            })
            .collect();
        serde_json::to_value(Sc { tables, build, plans, probes: r.u64() }).unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc = serde_json::from_value(sc.clone()).unwrap_or_default();
        let base = scratch().join("enum");
        let tdir = base.join("tables");
        let _ = fs::remove_dir_all(&base);
        fs::create_dir_all(&tdir).expect("scratch");
        let mut tabs: Vec<(PathBuf, Option<Vec<(u32, String)>>)> = vec![];
        for (i, t) in sc.tables.iter().enumerate() {
            let p = tdir.join(format!("table{i}"));
            let b = encode(t);
            let m = match &b {
                Some(b) => {
                    fs::write(&p, b).expect("scratch");
                    model(b)
                }
                None => {
                    if t.bad == 6 {
                        fs::create_dir_all(&p).expect("scratch");
                    }
                    None
                }
            };
            if m.as_ref().is_some_and(|m| m.is_empty()) {
                continue;
            }
            tabs.push((p, m));
        }
        if tabs.is_empty() {
            return Ok(());
        }
        let s = |p: &Path| p.to_str().expect("path").to_string();
        let input = s(&tdir) + "/";
        let job = |src: &str, more: &[&str], plan: &Plan| {
            let mut args: Vec<String> = ["--edition", "2021", "--cap-lints", "allow", "--error-format=short", "-Cdebuginfo=0", "--crate-name", "x", src].iter().map(|x| x.to_string()).collect();
            args.push("--extern".into());
            args.push(format!("grib_codegen={}", s(&library())));
            args.extend(more.iter().map(|x| x.to_string()));
            run(&Job {
                program: rustc().to_path_buf(),
                args,
                input: &input,
                out_dir: "",
                plan,
                env: vec![("RUSTC_BOOTSTRAP".into(), "1".into()), ("TMPDIR".into(), s(&base)), ("GRIBSIM_PROG".into(), "rustc".into())],
                cpu: 60,
                tracing: tracing(),
                cwd: Some(base.clone()),
            })
        };
        let started = |o: &Outcome, what: &str| -> Result<(), Viol> {
            if o.timeout || o.signal.is_some() {
                return viol("crash", format!("{what}: {} {}", o.status(), o.err_text()));
            }
            Ok(())
        };
        let item = |p: &Path| format!("#[grib_codegen::parameter_codes(path = {:?})]\n#[derive(Clone, Copy)]\npub enum T {{}}\n", s(p));

        // the batch alone, expanded
        let src = s(&base.join("expand.rs"));
        let mut text = String::new();
        for (i, (p, _)) in tabs.iter().enumerate() {
            write!(text, "pub mod m{i} {{\n{}}}\n", item(p)).unwrap();
        }
        fs::write(&src, text + "fn main() {}\n").expect("scratch");
        let bad: BTreeSet<usize> = tabs.iter().enumerate().filter(|(_, t)| t.1.is_none()).map(|(i, _)| i).collect();
        let names = |v: &BTreeSet<usize>| v.iter().map(|i| tabs.get(*i).map_or("?".into(), |t| t.0.file_name().unwrap().to_string_lossy().into_owned())).collect::<Vec<_>>().join(" ");
        let mut reference: Option<Vec<u8>> = None;
        let clean = Plan { rnd: 1, ..Default::default() };
        for (k, p) in std::iter::once(&clean).chain(&sc.plans).enumerate() {
            let o = job(&src, &["-Zunpretty=expanded"], p);
            let what = format!("expansion {k} with plan [{}]", p.text());
            started(&o, &what)?;
            st.add("processes", 1);
            st.add("expansions", tabs.len() as u64);
            st.evals += 1;
            o.log.stats(st);
            st.mix(o.code.map_or(7, |c| c as u64));
            st.nontrivial |= !bad.is_empty() || o.log.hard() + o.log.shorts[0] + o.log.intrs[0] > 0;
            let fl = flagged(&o.stderr, &src);
            st.mix_str(&format!("{fl:?}"));
            if o.ok() {
                if !bad.is_empty() {
                    return viol("accepted", format!("{what}: success though these tables cannot be read: {}", names(&bad)));
                }
                st.mix(hash_str(&String::from_utf8_lossy(&o.stdout)));
                match &reference {
                    None => reference = Some(o.stdout),
                    Some(e) if *e != o.stdout => {
                        let (a, b) = (String::from_utf8_lossy(e).into_owned(), String::from_utf8_lossy(&o.stdout).into_owned());
                        let n = a.lines().zip(b.lines()).take_while(|(x, y)| x == y).count();
                        let l = |t: &str| t.lines().nth(n).unwrap_or("(end)").trim().chars().take(120).collect::<String>();
                        return viol("unstable", format!("{what}: success with another expansion than before; line {n}: `{}` against `{}`", l(&b), l(&a)));
                    }
                    _ => {}
                }
            } else {
                let hit: BTreeSet<usize> = fl.difference(&bad).copied().collect();
                if bad.is_empty() && o.log.hard() == 0 {
                    return viol("refused", format!("{what}: {} without any fault: {}", o.status(), o.err_text()));
                }
                if !bad.is_subset(&fl) {
                    return viol("accepted", format!("{what}: no error at {}", names(&bad.difference(&fl).copied().collect())));
                }
                if hit.len() as u64 > o.log.hard() {
                    return viol("refused", format!("{what}: errors at {} with {} read or open errors", names(&hit), o.log.hard()));
                }
                st.add("compile_errors", fl.len() as u64);
            }
        }

        // the good ones in a program
        let good: Vec<_> = tabs.iter().filter_map(|(p, m)| m.as_ref().map(|m| (p, m))).collect();
        if good.is_empty() {
            return Ok(());
        }
        let (src, exe) = (s(&base.join("program.rs")), base.join("program"));
        let mut text = String::new();
        let mut probes: Vec<(usize, u32)> = vec![];
        let mut r = Rng::new(sc.probes);
        let mut expect: Vec<Option<(String, u32)>> = vec![];
        for (i, (p, m)) in good.iter().enumerate() {
            let mut first: BTreeMap<&str, u32> = BTreeMap::new();
            let mut of: BTreeMap<u32, &str> = BTreeMap::new();
            for (c, n) in m.iter() {
                first.entry(n).or_insert(*c);
                of.entry(*c).or_insert(n);
            }
            let arms: String = first.keys().map(|n| format!("T::{n} => \"{n}\", ")).collect();
            write!(text, "mod m{i} {{\n{}pub fn n(v: T) -> &'static str {{ match v {{ {arms} }} }}\npub fn f(c: u32) {{ match T::try_from(c) {{ Ok(v) => println!(\"{{}} {{}}\", n(v), v as u32), Err(_) => println!(\"-\") }} }}\n}}\n", item(p)).unwrap();
            let mut c: BTreeSet<u32> = BTreeSet::new();
            for x in of.keys() {
                let [_, a, b, d] = x.to_be_bytes();
                c.extend([*x, x ^ 1, x.wrapping_add(1), x.wrapping_sub(1), x | 1 << 24, x | 1 << 31, id([a, d, b]), id([b, a, d]), id([d, b, a]), x >> 8, x << 8, x & 0xffff, id([a, b, r.below(256) as u8])]);
            }
            c.extend((0..20).map(|_| r.u64() as u32));
            c.extend((0..20).map(|_| r.below(1 << 24) as u32));
            for x in c {
                probes.push((i, x));
                expect.push(of.get(&x).map(|n| (n.to_string(), first[n])));
            }
        }
        let calls: String = (0..good.len()).map(|i| format!("{i} => m{i}::f(c), ")).collect();
        write!(text, "fn main() {{ for (m, c) in P.iter().copied() {{ match m {{ {calls} _ => {{}} }} }} }}\nstatic P: [(usize, u32); {}] = {probes:?};\n", probes.len()).unwrap();
        fs::write(&src, text).expect("scratch");
        let plan = Plan { faults: vec![], room: vec![], ..sc.build.clone() };
        let o = job(&src, &["-o", &s(&exe)], &plan);
        let what = format!("program of {} tables, compiled with plan [{}]", good.len(), plan.text());
        started(&o, &what)?;
        st.add("processes", 2);
        st.add("tables_compiled", good.len() as u64);
        st.evals += good.len() as u64;
        o.log.stats(st);
        if !o.ok() {
            return viol("image", format!("{what}: {}", o.err_text()));
        }
        let out = Command::new(&exe).env_clear().output().expect("program");
        let out = String::from_utf8_lossy(&out.stdout).into_owned();
        st.add("probes", probes.len() as u64);
        let mut lines = out.lines();
        for ((i, c), e) in probes.iter().zip(&expect) {
            let l = lines.next().unwrap_or("nothing");
            let want = e.as_ref().map_or("-".to_string(), |(n, v)| format!("{n} {v}"));
            if l != want {
                return viol("image", format!("{}: code {c} ({:?}) gives `{l}`, expected `{want}`", good[*i].0.file_name().unwrap().to_string_lossy(), c.to_be_bytes()));
            }
        }
        Ok(())
    }
}
