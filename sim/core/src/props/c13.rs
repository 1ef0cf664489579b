//! C13: code tables are loaded whole or not at all.

use crate::hook;
use crate::io::*;
use crate::proc::*;
use crate::rng::{hash_str, mix, Rng};
use crate::runner::*;
use grib_build::grib2_codeflag_csv::OptArg;
use grib_build::{cct_csv, grib2_codeflag_csv};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::fs;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
struct Row {
    /// which of the categories of the file
    cat: u8,
    /// 0: next code(s), 1: reserved, 2: no number, 3: after a gap, 4: descending range, 5: the previous code again
    kind: u8,
    /// number of codes in the range
    len: u8,
    text: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
struct Table {
    /// 0: C00, 1: C11, 2: code/flag table
    kind: u8,
    section: u8,
    number: u8,
    /// 0: no categories, 1: disciplines, 2: disciplines and parameter categories
    level: u8,
    cats: u8,
    base: u8,
    rows: Vec<Row>,
    /// != 0: cannot be loaded
    bad: u8,
    bad_row: u8,
    style: u16,
    title: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
struct Op {
    table: u8,
    delivery: Delivery,
    faults: Vec<Fault>,
    /// != 0: the file is replaced by another edition of the table first
    edition: u8,
    /// which of two databases
    db: u8,
}

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Sc {
    tables: Vec<Table>,
    ops: Vec<Op>,
    /// run the build script on the tables instead
    script: bool,
    plans: Vec<Plan>,
}

const RESERVED: [&str; 7] = ["Future versions", "Reserved", "Reserved for local use", "Reserved for other centres", "Missing", "Missing value", ")"];

fn text(seed: u32) -> String {
    const W: [&str; 24] = [
        "Temperature", "K", "a, b", "say \"x\"", "", " lead", "trail ", "two\nlines", "é–µ", "back\\slash", "tab\t.", "{}", "'", "Reserved for", "missing", "0", "1-2", "()", "\u{1f30d}", "//", "*/",
        "#[x]", "Reserved.", "very long description of a meteorological parameter that goes on and on",
    ];
    let mut r = Rng::new(u64::from(seed));
    let n = if seed < 24 { return W[seed as usize].to_string() } else { 1 + r.below(3) };
    (0..n).map(|_| W[r.us(24)]).collect::<Vec<_>>().join(" ")
}

type Key = (u8, u8, u8, u16, u16);

fn key_cat(t: &Table, c: u8) -> (u8, u8, u8) {
    let n = t.cats.max(1);
    let c = c % n;
    match t.level % 3 {
        0 => (0, 0, 0),
        1 => (1, t.base.wrapping_add(c), 0),
        _ => (2, t.base.wrapping_add(c / 3), c % 3 * 7),
    }
}

fn subtitle(k: (u8, u8, u8), style: u16) -> String {
    match k.0 {
        0 => String::new(),
        1 if style & 1 == 0 => format!("Product discipline {} - Something, else", k.1).replace(", else", ""),
        1 => format!("Product discipline {} - Meteorological products", k.1),
        _ => format!("Product discipline {} - Meteorological products, parameter category {}: {}", k.1, k.2, if style & 2 == 0 { "temperature" } else { "a: b" }),
    }
}

/// (category, code, text) of each row
fn records(t: &Table) -> Vec<((u8, u8, u8), String, String)> {
    let mut next: BTreeMap<(u8, u8, u8), u32> = BTreeMap::new();
    let mut v = vec![];
    for row in &t.rows {
        let k = if t.kind % 3 == 2 { key_cat(t, row.cat) } else { (0, 0, 0) };
        let n = next.entry(k).or_insert(0);
        let len = u32::from(row.len.max(1));
        let range = |a: u32, l: u32| if l == 1 { a.to_string() } else { format!("{a}-{}", a + l - 1) };
        let mut tx = text(row.text);
        if RESERVED.contains(&tx.as_str()) {
            tx.push('.');
        }
        let code = match row.kind % 6 {
            0 => {
                let c = range(*n, len);
                *n += len;
                c
            }
            1 => {
                let c = range(*n, len * 3);
                *n += len * 3;
                tx = RESERVED[row.text as usize % 7].to_string();
                c
            }
            2 => ["", "Not applicable", "-", "x", "–", "1–2"][row.text as usize % 6].to_string(),
            3 => {
                *n += 1;
                let c = range(*n, len);
                *n += len;
                c
            }
            4 => format!("{}-{}", *n + len, *n),
            _ => n.saturating_sub(1).to_string(),
        };
        v.push((k, code, tx));
    }
    v
}

/// What the exported text table of these records must be.
fn model(rec: &[(String, String)]) -> Vec<String> {
    let mut at: BTreeMap<usize, String> = BTreeMap::new();
    let mut total = 0usize;
    for (code, tx) in rec {
        let (a, b) = match code.split_once('-') {
            Some((a, b)) => (a.parse::<usize>(), b.parse::<usize>()),
            None => (code.parse(), code.parse()),
        };
        let (Ok(a), Ok(b)) = (a, b) else { continue };
        if b < a {
            continue;
        }
        if !RESERVED.contains(&tx.as_str()) {
            if a != total {
                return vec![]; // tables with gaps are not supported: documented, exported as empty
            }
            for i in a..=b {
                at.insert(i, tx.clone());
            }
        }
        total += b - a + 1;
    }
    let n = at.keys().last().map_or(0, |k| k + 1);
    (0..n).map(|i| at.remove(&i).unwrap_or_default()).collect()
}

fn title(t: &Table, k: (u8, u8, u8)) -> String {
    format!("Code table {}.{} - {} {:?}", t.section, t.number, text(t.title).replace('\n', " "), (k.1, k.2))
}

/// Another edition of a table: the same categories and codes with other meanings, sometimes under another title.
fn edited(t: &Table, e: u8) -> Table {
    let mut t = t.clone();
    if e % 2 == 1 {
        t.title += 100 + u32::from(e);
    }
    for r in &mut t.rows {
        if e != 0 && r.kind % 6 != 1 && r.kind % 6 != 2 {
            r.text = r.text.wrapping_add(u32::from(e) * 1000);
        }
    }
    t
}

fn file_name(i: usize, t: &Table) -> String {
    match t.kind % 3 {
        0 => "C00.csv".into(),
        1 => "C11.csv".into(),
        _ if t.bad == 5 => format!("GRIB2_CodeFlag_{}_x{}_CodeTable_en.csv", t.section, t.number),
        _ => format!("GRIB2_CodeFlag_{}_{}_CodeTable{i}_en.csv", t.section, t.number),
    }
}

fn quote(s: &str, always: bool) -> Vec<u8> {
    if always || s.contains([',', '"', '\n', '\r']) {
        format!("\"{}\"", s.replace('"', "\"\"")).into_bytes()
    } else {
        s.as_bytes().to_vec()
    }
}

fn encode(t: &Table) -> Vec<u8> {
    let rec = records(t);
    let mut cols: Vec<&str> = match t.kind % 3 {
        0 => vec!["GRIB version number", "BUFR version number", "CREX version number", "Effective date", "Status"],
        1 => vec!["CREX2", "GRIB2_BUFR4", "OriginatingGeneratingCentre_en", "Status"],
        _ => vec!["Title_en", "SubTitle_en", "CodeFlag", "Value", "MeaningParameterDescription_en", "Note_en", "UnitComments_en", "Status"],
    };
    if t.style & 4 != 0 {
        cols.push("Extra column");
    }
    let mut r = Rng::new(u64::from(t.style) << 8);
    if t.style & 8 != 0 {
        r.shuffle(&mut cols);
    }
    let needed = ["GRIB version number", "GRIB2_BUFR4", "CodeFlag"];
    let nl: &[u8] = if t.style & 16 != 0 { b"\r\n" } else { b"\n" };
    let mut out: Vec<u8> = vec![];
    let mut line = |f: Vec<Vec<u8>>, last: bool| {
        for (k, x) in f.iter().enumerate() {
            if k > 0 {
                out.push(b',');
            }
            out.extend_from_slice(x);
        }
        if !last || t.style & 32 == 0 {
            out.extend_from_slice(nl);
        }
    };
    let all = t.style & 64 != 0;
    line(cols.iter().map(|c| if t.bad == 4 && needed.contains(c) { b"Other".to_vec() } else { quote(c, all) }).collect(), rec.is_empty());
    let bad_row = usize::from(t.bad_row) % rec.len().max(1);
    for (i, (k, code, tx)) in rec.iter().enumerate() {
        let mut f: Vec<Vec<u8>> = cols
            .iter()
            .map(|c| match *c {
                "GRIB version number" | "GRIB2_BUFR4" | "CodeFlag" => quote(code, all),
                "Effective date" | "OriginatingGeneratingCentre_en" | "MeaningParameterDescription_en" => {
                    let mut q = quote(tx, all);
                    if t.bad == 3 && i == bad_row {
                        q.insert(q.len() / 2, 0xff);
                    }
                    q
                }
                "Title_en" => quote(&title(t, *k), all),
                "SubTitle_en" if t.bad == 2 && i == bad_row => quote("Product discipline seven", all),
                "SubTitle_en" => quote(&subtitle(*k, t.style), all),
                "Status" => b"Operational".to_vec(),
                _ => quote(&text((i as u32).wrapping_mul(31) % 7), all),
            })
            .collect();
        if t.bad == 1 && i == bad_row {
            f.pop();
        }
        line(f, i + 1 == rec.len());
    }
    out
}

/// Err: must be refused
fn outcome(t: &Table) -> Result<BTreeMap<Key, (String, Vec<String>)>, ()> {
    let rec = records(t);
    let flag = t.kind % 3 == 2;
    match t.bad {
        1 | 3 | 4 if !rec.is_empty() => return Err(()),
        2 if flag && !rec.is_empty() => return Err(()),
        5 if flag => return Err(()),
        6 | 7 => return Err(()),
        _ => {}
    }
    let mut by: BTreeMap<(u8, u8, u8), Vec<(String, String)>> = BTreeMap::new();
    for (k, c, x) in rec {
        by.entry(k).or_default().push((c, x));
    }
    let mut m = BTreeMap::new();
    if !flag {
        let k = t.kind % 3;
        let d = if k == 0 { "Common Code Table C-0" } else { "Common Code Table C-11" };
        m.insert((255, k * 11, 0, 0, 0), (d.to_string(), model(by.get(&(0, 0, 0)).map_or(&[][..], |v| v))));
    } else {
        for (k, v) in by {
            m.insert((t.section, t.number, k.0, k.1.into(), k.2.into()), (title(t, k), model(&v)));
        }
    }
    Ok(m)
}

fn var_name(k: &Key) -> String {
    match k {
        (255, n, 0, ..) => format!("COMMON_CODE_TABLE_{n:02}"),
        (s, n, 0, ..) => format!("CODE_TABLE_{s}_{n}"),
        (s, n, 1, d, _) => format!("CODE_TABLE_{s}_{n}_{d}"),
        (s, n, _, d, c) => format!("CODE_TABLE_{s}_{n}_{d}_{c}"),
    }
}

/// Reads the generated source text back: name -> (description, texts).
fn parse_export(s: &str) -> Result<BTreeMap<String, (String, Vec<String>)>, String> {
    let mut m = BTreeMap::new();
    let mut doc = String::new();
    let mut rest = s.trim_start();
    while !rest.is_empty() {
        if let Some(x) = rest.strip_prefix("///") {
            let (l, r) = x.split_once('\n').unwrap_or((x, ""));
            doc = l.trim().to_string();
            rest = r.trim_start();
            continue;
        }
        let x = rest.strip_prefix("const ").or(rest.strip_prefix("pub const ")).ok_or_else(|| format!("unexpected text: {}", rest.chars().take(60).collect::<String>()))?;
        let (name, x) = x.split_once(':').ok_or("no type")?;
        let (_, x) = x.split_once('=').ok_or("no value")?;
        let (_, mut x) = x.split_once('[').ok_or("no list")?;
        let mut v = vec![];
        loop {
            x = x.trim_start();
            if let Some(y) = x.strip_prefix(']') {
                rest = y.trim_start().trim_start_matches(';').trim_start();
                break;
            }
            if let Some(y) = x.strip_prefix(',') {
                x = y;
                continue;
            }
            let y = x.strip_prefix('"').ok_or_else(|| format!("unexpected list item: {}", x.chars().take(60).collect::<String>()))?;
            let mut t = String::new();
            let mut it = y.char_indices();
            loop {
                let (i, c) = it.next().ok_or("unterminated text")?;
                match c {
                    '"' => {
                        x = &y[i + 1..];
                        break;
                    }
                    '\\' => match it.next().ok_or("unterminated text")?.1 {
                        'n' => t.push('\n'),
                        'r' => t.push('\r'),
                        't' => t.push('\t'),
                        '0' => t.push('\0'),
                        'u' => {
                            let h: String = it.by_ref().map(|x| x.1).skip(1).take_while(|c| *c != '}').collect();
                            t.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("bad escape")?);
                        }
                        c => t.push(c),
                    },
                    c => t.push(c),
                }
            }
            v.push(t);
        }
        if m.insert(name.trim().to_string(), (std::mem::take(&mut doc), v)).is_some() {
            return Err(format!("{name} occurs twice"));
        }
    }
    Ok(m)
}

fn compare(s: &str, exp: &BTreeMap<Key, (String, Vec<String>)>) -> Result<(), String> {
    let got = parse_export(s)?;
    for (k, (d, v)) in exp {
        let n = var_name(k);
        let Some((gd, gv)) = got.get(&n) else { return Err(format!("{n} is missing")) };
        if gd.trim() != d.trim() {
            return Err(format!("{n} is described as `{gd}`, expected `{d}`"));
        }
        if gv != v {
            let i = gv.iter().zip(v).take_while(|(a, b)| a == b).count();
            return Err(format!("{n} has {} entries, expected {}; first difference at {i}: {:?} against {:?}", gv.len(), v.len(), gv.get(i), v.get(i)));
        }
    }
    if got.len() != exp.len() {
        return Err(format!("{} tables exported, expected {}", got.len(), exp.len()));
    }
    Ok(())
}

fn gen_table(r: &mut Rng, i: usize) -> Table {
    let kind = *r.pick(&[0u8, 1, 2, 2, 2, 2]);
    let level = r.below(3) as u8;
    let cats = 1 + r.below(4) as u8;
    let dense = r.chance(2, 3);
    let shuffled = r.chance(1, 4);
    let n = *r.pick(&[0u64, 1, 3, 8, 8, 20, 20, 60, 60, 300]);
    let n = r.below(n + 1);
    let mut rows: Vec<Row> = (0..n)
        .map(|k| Row {
            cat: if shuffled { r.below(cats.into()) as u8 } else { (k * u64::from(cats) / n.max(1)) as u8 },
            kind: if dense { *r.pick(&[0u8, 0, 0, 0, 1, 2]) } else { r.below(6) as u8 },
            len: if r.chance(1, 4) { 1 + r.below(6) as u8 } else { 1 },
            text: r.below(400) as u32,
        })
        .collect();
    if !dense && r.chance(1, 2) {
        for x in &mut rows {
            if x.kind > 2 && r.chance(3, 4) {
                x.kind = 0;
            }
        }
    }
    Table {
        kind,
        section: *r.pick(&[0u8, 1, 3, 4, 4, 4, 5, 254]),
        number: if r.chance(1, 3) { 2 } else { i as u8 },
        level,
        cats,
        base: if r.chance(1, 2) { 0 } else { i as u8 * 10 },
        rows,
        bad: if r.chance(1, 4) { 1 + r.below(7) as u8 } else { 0 },
        bad_row: r.below(64) as u8,
        style: r.below(128) as u16,
        title: r.below(300) as u32,
    }
}

fn gen_delivery13(r: &mut Rng) -> Delivery {
    let mut d = gen_delivery(r);
    d.buf = 0;
    if r.chance(1, 2) {
        d.chunks.retain(|c| *c != 0);
    }
    d
}

pub struct C13;

const SCRIPT: [(&str, u8, u8, u8); 15] = [
    ("CCT/C00.csv", 0, 0, 0),
    ("CCT/C11.csv", 1, 0, 0),
    ("GRIB2/GRIB2_CodeFlag_0_0_CodeTable_en.csv", 2, 0, 0),
    ("GRIB2/GRIB2_CodeFlag_1_1_CodeTable_en.csv", 2, 1, 1),
    ("GRIB2/GRIB2_CodeFlag_1_2_CodeTable_en.csv", 2, 1, 2),
    ("GRIB2/GRIB2_CodeFlag_1_3_CodeTable_en.csv", 2, 1, 3),
    ("GRIB2/GRIB2_CodeFlag_1_4_CodeTable_en.csv", 2, 1, 4),
    ("GRIB2/GRIB2_CodeFlag_3_1_CodeTable_en.csv", 2, 3, 1),
    ("GRIB2/GRIB2_CodeFlag_4_0_CodeTable_en.csv", 2, 4, 0),
    ("GRIB2/GRIB2_CodeFlag_4_1_CodeTable_en.csv", 2, 4, 1),
    ("GRIB2/GRIB2_CodeFlag_4_2_CodeTable_en.csv", 2, 4, 2),
    ("GRIB2/GRIB2_CodeFlag_4_3_CodeTable_en.csv", 2, 4, 3),
    ("GRIB2/GRIB2_CodeFlag_4_4_CodeTable_en.csv", 2, 4, 4),
    ("GRIB2/GRIB2_CodeFlag_4_5_CodeTable_en.csv", 2, 4, 5),
    ("GRIB2/GRIB2_CodeFlag_5_0_CodeTable_en.csv", 2, 5, 0),
];

impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn count(&self) -> (u64, u64) {
        (40_000, 1_000_000)
    }
    fn real(&self) -> &'static str {
        "the grib-build crate (gen/) in process on real files, incl. csv and serde; the real build script of the grib crate (build.rs) as a process"
    }
    fn stubs(&self) -> &'static str {
        "open and read of libc for the table files (interposed in process; shim/shim.c for the build script), writes of the build script"
    }
    fn processes(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "a seeded sequence of loads (in any order, repeated, of good, replaced, malformed and missing table files of all layouts) under short and interrupted reads and read or open errors; into two databases, with several files and editions for one table; after every load the exported tables are compared with a model of the set loaded so far (the last successful load of a table counts, texts and title), in the end also with a fresh database that loads each file once, in sorted order or, where files define the same table, in the order of their last load; every 24th scenario runs the real build script on 15 generated tables under read and write faults; non-trivial: a load failed, was repeated or was delivered in pieces; distinct by digest over system calls and exported text"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["tables with gaps are exported as empty (documented restriction)"]
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        if idx % 24 == 23 {
            let tables = (0..15)
                .map(|i| {
                    let mut t = gen_table(r, i);
                    t.bad = if r.chance(1, 60) { 1 + r.below(7) as u8 } else { 0 };
                    t
                })
                .collect();
            let plans = (0..3)
                .map(|_| {
                    let mut p = Plan { rnd: r.u64(), ..Default::default() };
                    if r.chance(1, 2) {
                        p.legal.push(Legal { cls: 0, intr: *r.pick(&[0, 0, 0, 30]), ..gen_legal(r, 0) });
                    }
                    if r.chance(1, 2) {
                        p.legal.push(gen_legal(r, 1));
                    }
                    if r.chance(2, 3) {
                        let (cls, op) = *r.pick(&[(0u8, 0u8), (0, 1), (0, 1), (1, 0), (1, 2), (1, 2)]);
                        p.faults.push(PFault { cls, op, at: r.below(if cls == 0 { 40 } else { 4 }) as u32, kind: r.below(8) as u8, times: *r.pick(&[0u32, 1, 2]) });
                    }
                    if r.chance(1, 5) {
                        p.room.push((1, r.below(6000) as u32));
                    }
                    p
                })
                .collect();
            return serde_json::to_value(Sc { tables, ops: vec![], script: true, plans }).unwrap();
        }
        let n = 1 + r.below(5) as usize;
        let tables: Vec<Table> = (0..n).map(|i| gen_table(r, i)).collect();
        let ops = (0..1 + r.below(9))
            .map(|_| Op {
                table: r.below(n as u64) as u8,
                edition: if r.chance(1, 6) { 1 + r.below(3) as u8 } else { 0 },
                db: if r.chance(1, 4) { 1 } else { 0 },
                delivery: if r.chance(1, 2) { gen_delivery13(r) } else { Delivery::default() },
                faults: if r.chance(1, 3) { vec![Fault { at: r.below(*r.clone().pick(&[2u64, 6, 40])) as u32, kind: r.below(6) as u8, times: r.below(4) as u32 }] } else { vec![] },
            })
            .collect();
        serde_json::to_value(Sc { tables, ops, script: false, plans: vec![] }).unwrap()
    }
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sc: Sc = serde_json::from_value(sc.clone()).unwrap_or_default();
        if sc.script {
            return script(&sc, st);
        }
        let dir = scratch().join("tables");
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).expect("scratch");
        let mut files = vec![];
        for (i, t) in sc.tables.iter().enumerate() {
            let d = dir.join(i.to_string());
            fs::create_dir_all(&d).expect("scratch");
            let p = d.join(file_name(i, t));
            match t.bad {
                6 => {}
                7 => fs::create_dir_all(&p).expect("scratch"),
                _ => fs::write(&p, encode(t)).expect("scratch"),
            }
            files.push(p);
        }
        let mut flag = [grib2_codeflag_csv::CodeDB::new(), grib2_codeflag_csv::CodeDB::new()];
        let mut cct = [cct_csv::CodeDB::new(), cct_csv::CodeDB::new()];
        let mut exp: [[BTreeMap<Key, (String, Vec<String>)>; 2]; 2] = Default::default();
        // the files loaded into each database and their editions, in the order of the last load
        let mut loaded: [Vec<(usize, u8)>; 2] = Default::default();
        let mut edition = vec![0u8; sc.tables.len()];
        let prefix = dir.to_str().expect("path").to_string();
        for (k, op) in sc.ops.iter().enumerate() {
            if sc.tables.is_empty() {
                break;
            }
            let i = usize::from(op.table) % sc.tables.len();
            let path = &files[i];
            if op.edition != 0 && sc.tables[i].bad < 6 {
                edition[i] = edition[i].wrapping_add(op.edition);
                fs::write(path, encode(&edited(&sc.tables[i], edition[i]))).expect("scratch");
            }
            let t = &edited(&sc.tables[i], edition[i]);
            let out = outcome(t);
            let w = usize::from(t.kind % 3 != 2);
            let d = usize::from(op.db % 2);
            let other = (flag[1 - d].to_string(), cct[1 - d].to_string());
            let before = if w == 0 { flag[d].to_string() } else { cct[d].to_string() };
            hook::set(&prefix, &op.delivery, &op.faults);
            let r = if w == 0 { flag[d].load(path).map_err(|e| e.to_string()) } else { cct[d].load(path).map_err(|e| e.to_string()) };
            let h = hook::take();
            let after = if w == 0 { flag[d].to_string() } else { cct[d].to_string() };
            st.add("sim_ops", h.ops);
            st.add("fault:short_read", h.short);
            st.add("fault:interrupted_read", h.intr);
            for e in &h.errors {
                st.add(&format!("fault:{}", kind_name(*e)), 1);
            }
            st.mix(h.digest);
            st.evals += 1;
            st.nontrivial |= h.short + h.intr > 0 || !h.errors.is_empty() || r.is_err() || loaded[d].iter().any(|l| l.0 == i);
            let what = format!("load {k} of {} (edition {}) into database {d}", path.file_name().unwrap().to_string_lossy(), edition[i]);
            trace(|| format!("{what}: {:?}; {} calls, {} short, {} interrupted, {} errors; tables before {} now {}", r, h.ops, h.short, h.intr, h.errors.len(), exp[d][w].len(), parse_export(&after).map_or(0, |m| m.len())));
            match (r, out) {
                (Ok(()), Ok(m)) => {
                    // the last load of a table counts, whichever file it came from
                    if m.keys().any(|k| exp[d][w].contains_key(k)) {
                        st.add("loads_replacing_tables", 1);
                    }
                    exp[d][w].extend(m);
                    loaded[d].retain(|l| l.0 != i);
                    loaded[d].push((i, edition[i]));
                    st.add("loads_done", 1);
                }
                (Ok(()), Err(())) => return viol("accepted", format!("{what}: success though the file cannot be loaded whole (kind of damage {})", t.bad)),
                (Err(e), o) => {
                    st.add("loads_failed", 1);
                    if o.is_ok() && h.errors.is_empty() && h.intr == 0 {
                        return viol("refused", format!("{what}: {e} without any fault"));
                    }
                    if before != after {
                        return viol("partial", format!("{what} failed ({e}) but changed the exported tables"));
                    }
                }
            }
            if let Err(e) = compare(&after, &exp[d][w]) {
                return viol("content", format!("{what}: {e}"));
            }
            if other != (flag[1 - d].to_string(), cct[1 - d].to_string()) {
                return viol("content", format!("{what} changed another database"));
            }
            st.mix(hash_str(&after));
        }
        for d in 0..2 {
            // the tables one by one
            for (w, m) in exp[d].iter().enumerate() {
                for k in m.keys() {
                    let one = if w == 0 { flag[d].export(id_of(k)) } else { cct[d].export(k.1) };
                    let part: BTreeMap<_, _> = [(*k, m[k].clone())].into();
                    if let Err(e) = compare(&one, &part) {
                        return viol("content", format!("export of {}: {e}", var_name(k)));
                    }
                }
            }
            // the order of loading and the failures in between must not show
            let mut a = grib2_codeflag_csv::CodeDB::new();
            let mut b = cct_csv::CodeDB::new();
            let mut seen: Vec<(bool, Key)> = vec![];
            let mut shared = false;
            for (i, e) in &loaded[d] {
                let t = edited(&sc.tables[*i], *e);
                let keys: Vec<_> = outcome(&t).unwrap_or_default().into_keys().map(|k| (t.kind % 3 == 2, k)).collect();
                shared |= keys.iter().any(|k| seen.contains(k));
                seen.extend(keys);
            }
            if !shared {
                loaded[d].sort_unstable();
            }
            for (i, e) in &loaded[d] {
                let path = &files[*i];
                let t = edited(&sc.tables[*i], *e);
                fs::write(path, encode(&t)).expect("scratch");
                let r = if t.kind % 3 == 2 { a.load(path).is_ok() } else { b.load(path).is_ok() };
                if !r {
                    return viol("refused", format!("a fresh database refuses {}", path.file_name().unwrap().to_string_lossy()));
                }
            }
            if a.to_string() != flag[d].to_string() || b.to_string() != cct[d].to_string() {
                return viol("order", format!("the exported text of database {d} depends on the history of loads"));
            }
        }
        Ok(())
    }
}

fn id_of(k: &Key) -> (u8, u8, OptArg) {
    let c = match k.2 {
        0 => OptArg::None,
        1 => OptArg::L1(k.3 as u8),
        _ => OptArg::L2(k.3 as u8, k.4 as u8),
    };
    (k.0, k.1, c)
}

fn build_script() -> std::path::PathBuf {
    let d = bin_dir().join("build");
    let mut best = None;
    for e in fs::read_dir(&d).into_iter().flatten().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        let p = e.path().join("build-script-build");
        // package `grib`, not grib-something
        if n.strip_prefix("grib-").is_some_and(|h| h.len() == 16 && h.bytes().all(|c| c.is_ascii_hexdigit())) {
            if let Ok(m) = p.metadata().and_then(|m| m.modified()) {
                if best.as_ref().is_none_or(|(t, _)| m > *t) {
                    best = Some((m, p));
                }
            }
        }
    }
    best.expect("build script of grib").1
}

fn script(sc: &Sc, st: &mut Stats) -> Result<(), Viol> {
    let base = scratch();
    let (def, out) = (base.join("def"), base.join("out"));
    let _ = fs::remove_dir_all(&def);
    fs::create_dir_all(def.join("CCT")).expect("scratch");
    fs::create_dir_all(def.join("GRIB2")).expect("scratch");
    let mut exp: [Result<BTreeMap<Key, (String, Vec<String>)>, ()>; 2] = [Ok(BTreeMap::new()), Ok(BTreeMap::new())];
    for (i, (name, kind, section, number)) in SCRIPT.iter().enumerate() {
        let mut t = sc.tables.get(i).cloned().unwrap_or_default();
        (t.kind, t.section, t.number) = (*kind, *section, *number);
        if t.bad == 5 {
            t.bad = 0;
        }
        let p = def.join(name);
        match t.bad {
            6 => {}
            7 => fs::create_dir_all(&p).expect("scratch"),
            _ => fs::write(&p, encode(&t)).expect("scratch"),
        }
        let w = usize::from(*kind == 2);
        match outcome(&t) {
            Ok(m) => {
                if let Ok(e) = &mut exp[w] {
                    e.extend(m);
                }
            }
            Err(()) => exp[w] = Err(()),
        }
    }
    let s = |p: &std::path::Path| p.to_str().expect("path").to_string();
    let clean = Plan { rnd: 1, ..Default::default() };
    for (k, p) in std::iter::once(&clean).chain(&sc.plans).enumerate() {
        let _ = fs::remove_dir_all(&out);
        fs::create_dir_all(&out).expect("scratch");
        let o = run(&Job {
            program: build_script(),
            args: vec![],
            input: &(s(&def) + "/"),
            out_dir: &(s(&out) + "/"),
            plan: p,
            env: vec![("OUT_DIR".into(), s(&out)), ("GRIB_SIM_DEF_DIR".into(), s(&def))],
            cpu: 20,
            tracing: tracing(),
            cwd: Some(base.clone()),
        });
        st.add("processes", 1);
        o.log.stats(st);
        st.mix(o.code.map_or(7, |c| c as u64));
        st.evals += 1;
        st.nontrivial = true;
        let what = format!("build script, run {k} with plan [{}]", p.text());
        if o.timeout || o.signal.is_some() || o.code == Some(101) {
            return viol("script", format!("{what}: {} {}", o.status(), o.err_text()));
        }
        if o.ok() {
            st.add("script_succeeded", 1);
            for (e, f) in exp.iter().zip(["cct.rs", "grib2_codeflag.rs"]) {
                let Ok(e) = e else { return viol("accepted", format!("{what}: success though a table cannot be loaded")) };
                let text = String::from_utf8(fs::read(out.join(f)).unwrap_or_default()).unwrap_or_default();
                if let Err(x) = compare(&text, e) {
                    return viol("content", format!("{what}: success, but in {f} {x}"));
                }
                st.mix(mix(hash_str(&text)));
            }
        } else {
            st.add("script_failed", 1);
            if exp.iter().all(|e| e.is_ok()) && o.log.hard() == 0 && o.log.intrs[0] == 0 {
                return viol("refused", format!("{what}: {} without any fault: {}", o.status(), o.err_text()));
            }
            if o.stderr.is_empty() {
                return viol("script", format!("{what}: {} without a message", o.status()));
            }
        }
    }
    Ok(())
}
