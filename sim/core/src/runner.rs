//! Seeded search: generates scenarios by index, executes them in worker processes, attributes crashes, minimises
//! the first violation, writes the replay file and the evidence.

use crate::alloc;
use crate::rng::{hash_str, mix, Rng};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}

pub fn viol<T>(class: &str, detail: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.into(), detail: detail.into() })
}

#[derive(Default)]
pub struct Stats {
    pub c: BTreeMap<String, u64>,
    pub evals: u64,
    pub nontrivial: bool,
    pub digest: u64,
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.c.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn mix(&mut self, v: u64) {
        self.digest = mix(self.digest ^ mix(v));
    }
    pub fn mix_str(&mut self, s: &str) {
        self.mix(hash_str(s));
    }
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn gen(&self, r: &mut Rng, idx: u64, tier: Tier) -> Value;
    fn run(&self, sc: &Value, st: &mut Stats) -> Result<(), Viol>;
    /// scenarios in the (quick, thorough) tier
    fn count(&self) -> (u64, u64);
    fn rule(&self) -> &'static str;
    fn real(&self) -> &'static str {
        "the grib crate of /repo as compiled from its working tree (reader, parser, context, datatypes, grid, decoders incl. openjpeg and png)"
    }
    fn stubs(&self) -> &'static str {
        "byte source (simulated Read+Seek); WMO code tables (stand-in CSV files)"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn threads(&self) -> usize {
        8
    }
    /// the code under test runs in processes of its own
    fn processes(&self) -> bool {
        false
    }
    /// each scenario in a thread of its own
    fn fresh(&self) -> bool {
        false
    }
}

static TRACE: AtomicBool = AtomicBool::new(false);
static TRACE_OUT: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn tracing() -> bool {
    TRACE.load(Relaxed)
}

pub fn trace(f: impl FnOnce() -> String) {
    if TRACE.load(Relaxed) {
        crate::alloc::inside(|| {
        let mut t = TRACE_OUT.lock().unwrap();
        if t.len() < 4000 {
            t.push(f());
        }
        })
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        if std::env::var_os("SIM_PANIC_TRACE").is_some() {
            eprintln!("panic at {loc:?}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc.0.clone(), format!("panic at {}:{}: {}", loc.0, loc.1, msg))));
    }));
}

/// Runs library code; a panic becomes a violation of class "panic:<file>" (or "hang" for an exhausted call budget).
pub fn guarded<T>(f: impl FnOnce() -> Result<T, Viol>) -> Result<T, Viol> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (file, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if msg.contains("SIM-BUDGET") {
                return viol("hang", msg);
            }
            let file = match file.find("/src/") {
                Some(i) if file.starts_with("/repo") || file.contains("/repo/") => file[i + 1..].to_string(),
                _ => file.rsplit('/').next().unwrap_or("").to_string(),
            };
            viol(&format!("panic:{file}"), msg)
        }
    }
}

pub fn raw_line(s: &[u8]) {
    unsafe {
        libc::write(1, s.as_ptr() as *const _, s.len());
    }
}

fn arm_cpu_watchdog(secs: i64) {
    unsafe {
        let mut it: libc::itimerval = std::mem::zeroed();
        it.it_value.tv_sec = secs;
        libc::setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut());
    }
}

/// odd: a scenario runs
static BEAT: AtomicU64 = AtomicU64::new(0);

struct Beat;

impl Beat {
    fn start() -> Beat {
        BEAT.fetch_add(1, Relaxed);
        Beat
    }
}

impl Drop for Beat {
    fn drop(&mut self) {
        BEAT.fetch_add(1, Relaxed);
    }
}

/// Ends the process if a scenario uses no CPU time for half a minute without coming to its end: the code waits
/// for something that nobody will do.
fn watch_for_standstill(p: &dyn Prop) {
    if p.processes() {
        return;
    }
    let cpu = || {
        let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
        t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
    };
    std::thread::spawn(move || {
        let (mut beat, mut used, mut idle) = (0, 0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(5));
            let (b, u) = (BEAT.load(Relaxed), cpu());
            idle = if b % 2 == 1 && b == beat && u - used < 20 { idle + 1 } else { 0 };
            (beat, used) = (b, u);
            if idle == 6 {
                unsafe { libc::_exit(78) }
            }
        }
    });
}

fn exec(p: &dyn Prop, sc: &Value) -> (Result<(), Viol>, Stats) {
    arm_cpu_watchdog(25);
    let run = || {
        alloc::random_from(1);
        let mut st = Stats::default();
        alloc::begin(i64::MAX - 1);
        let r = guarded(|| p.run(sc, &mut st));
        alloc::end();
        (r, st)
    };
    let _beat = Beat::start();
    if !p.fresh() {
        return finish(run());
    }
    // a thread of its own, so that nothing is left of the scenario before: the keys of Rust's hash tables
    // are kept by thread
    finish(std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, run).expect("thread");
        t.join().expect("scenario")
    }))
}

fn finish((r, mut st): (Result<(), Viol>, Stats)) -> (Result<(), Viol>, Stats) {
    if let Err(v) = &r {
        st.mix_str(&v.class);
        st.mix_str(&v.detail);
    }
    (r, st)
}

fn rng_for(seed: u64, id: &str, idx: u64) -> Rng {
    Rng::new(mix(seed) ^ hash_str(id) ^ mix(idx.wrapping_add(0x1234_5678)))
}

fn scenario(p: &dyn Prop, seed: u64, idx: u64, tier: Tier) -> Value {
    p.gen(&mut rng_for(seed, p.id(), idx), idx, tier)
}

pub fn worker(p: &dyn Prop, seed: u64, tier: Tier, from: u64, to: u64, stride: u64) {
    install_hook();
    watch_for_standstill(p);
    let mut acc: BTreeMap<String, u64> = BTreeMap::new();
    let mut evals = 0u64;
    let mut idx = from;
    let mut n = 0;
    let mut covered = String::new();
    let cover = |last: &mut String| {
        let now = alloc::reached();
        if now != *last {
            raw_line(format!("C {now}\n").as_bytes());
            *last = now;
        }
    };
    let flush = |acc: &mut BTreeMap<String, u64>, evals: &mut u64| {
        raw_line(format!("S {}\n", json!({"c": acc, "evals": *evals})).as_bytes());
        acc.clear();
        *evals = 0;
    };
    while idx < to {
        raw_line(format!("B {idx}\n").as_bytes());
        let sc = scenario(p, seed, idx, tier);
        let (r, st) = exec(p, &sc);
        for (k, v) in st.c {
            *acc.entry(k).or_insert(0) += v;
        }
        evals += st.evals.max(1);
        raw_line(format!("D {idx} {} {}\n", st.digest, u8::from(st.nontrivial)).as_bytes());
        if let Err(v) = r {
            raw_line(format!("V {}\n", json!({"idx": idx, "class": v.class, "detail": v.detail})).as_bytes());
        }
        n += 1;
        if n % 32 == 0 {
            flush(&mut acc, &mut evals);
        }
        if n % 512 == 0 {
            cover(&mut covered);
        }
        idx += stride;
    }
    flush(&mut acc, &mut evals);
    cover(&mut covered);
    raw_line(b"E\n");
}

/// Persistent evaluator: one scenario per line on stdin.
pub fn eval_loop(p: &dyn Prop, tracing: bool) {
    install_hook();
    watch_for_standstill(p);
    TRACE.store(tracing, Relaxed);
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let Ok(sc) = serde_json::from_str::<Value>(&line) else {
            raw_line(b"R {\"class\":\"bad-scenario\",\"detail\":\"\",\"digest\":0}\n");
            continue;
        };
        let (r, st) = exec(p, &sc);
        let mut out = json!({"digest": st.digest});
        if let Err(v) = r {
            out["class"] = v.class.into();
            out["detail"] = v.detail.into();
        }
        if tracing {
            out["trace"] = std::mem::take(&mut *TRACE_OUT.lock().unwrap()).into();
        }
        raw_line(format!("R {out}\n").as_bytes());
    }
}

fn crash_viol(status: std::process::ExitStatus, mem: bool) -> Option<Viol> {
    match status.code() {
        Some(77) => return None,
        Some(78) => return Some(Viol { class: "deadlock".into(), detail: "every thread waits for something".into() }),
        _ => {}
    }
    let (class, detail) = match status.signal() {
        _ if mem => ("memory", "an allocation exceeded the memory budget and the process aborted".to_string()),
        Some(27) => ("hang", "CPU time budget of one scenario exhausted".to_string()),
        Some(s) => ("crash", format!("process killed by signal {s}")),
        None => ("crash", format!("process exited with status {:?}", status.code())),
    };
    Some(Viol { class: class.into(), detail })
}

pub struct Judge {
    id: String,
    tracing: bool,
    /// a new process for each evaluation, in which these scenarios run first
    before: Option<Vec<Value>>,
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
}

impl Judge {
    pub fn new(id: &str, tracing: bool) -> Judge {
        Judge { id: id.into(), tracing, before: None, child: None }
    }
    pub fn after(id: &str, tracing: bool, before: &[Value]) -> Judge {
        Judge { id: id.into(), tracing, before: Some(before.to_vec()), child: None }
    }
    /// (violation, digest, trace)
    pub fn eval(&mut self, sc: &Value) -> (Option<Viol>, u64, Vec<String>) {
        if let Some(before) = self.before.clone() {
            self.stop();
            for b in &before {
                self.eval_in(b);
            }
        }
        self.eval_in(sc)
    }
    fn stop(&mut self) {
        if let Some((mut c, i, o)) = self.child.take() {
            drop(i);
            drop(o);
            let _ = c.wait();
        }
    }
    fn eval_in(&mut self, sc: &Value) -> (Option<Viol>, u64, Vec<String>) {
        if self.child.is_none() {
            let mut c = Command::new(std::env::current_exe().unwrap());
            c.args(["eval", &self.id, if self.tracing { "trace" } else { "plain" }])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null());
            let mut ch = c.spawn().expect("spawn evaluator");
            let i = ch.stdin.take().unwrap();
            let o = BufReader::new(ch.stdout.take().unwrap());
            self.child = Some((ch, i, o));
        }
        let (_, i, o) = self.child.as_mut().unwrap();
        let _ = writeln!(i, "{sc}");
        let _ = i.flush();
        let mut mem = false;
        let mut line = String::new();
        loop {
            line.clear();
            match o.read_line(&mut line) {
                Ok(0) | Err(_) => {
                    let (mut ch, _, _) = self.child.take().unwrap();
                    let st = ch.wait().expect("wait");
                    return (crash_viol(st, mem), 0, vec![]);
                }
                Ok(_) => {}
            }
            if line.starts_with('M') {
                mem = true;
            } else if let Some(j) = line.strip_prefix("R ") {
                let v: Value = serde_json::from_str(j).unwrap_or(Value::Null);
                let viol = v["class"].as_str().map(|c| Viol {
                    class: c.to_string(),
                    detail: v["detail"].as_str().unwrap_or("").to_string(),
                });
                let tr = v["trace"]
                    .as_array()
                    .map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect())
                    .unwrap_or_default();
                return (viol, v["digest"].as_u64().unwrap_or(0), tr);
            }
        }
    }
}

impl Drop for Judge {
    fn drop(&mut self) {
        self.stop();
    }
}

// ---------------------------------------------------------------- minimisation

fn paths(v: &Value, cur: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(cur.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                cur.push(i.to_string());
                paths(x, cur, out);
                cur.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                cur.push(k.clone());
                paths(x, cur, out);
                cur.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a Value, p: &[String]) -> Option<&'a Value> {
    p.iter().try_fold(v, |v, k| match v {
        Value::Array(a) => a.get(k.parse::<usize>().ok()?),
        Value::Object(m) => m.get(k),
        _ => None,
    })
}

fn with(v: &Value, p: &[String], new: Value) -> Value {
    let mut c = v.clone();
    let mut cur = &mut c;
    for k in p {
        cur = match cur {
            Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
            Value::Object(m) => m.get_mut(k).unwrap(),
            _ => unreachable!(),
        };
    }
    *cur = new;
    c
}

pub fn minimise(j: &mut Judge, sc: &Value, class: &str, secs: u64) -> (Value, u64) {
    minimise_by(|c| j.eval(c).0.is_some_and(|v| v.class == class), sc, secs)
}

fn minimise_by(mut shows: impl FnMut(&Value) -> bool, sc: &Value, secs: u64) -> (Value, u64) {
    let t0 = Instant::now();
    let mut best = sc.clone();
    let mut evals = 0u64;
    let mut tried: HashSet<u64> = HashSet::new();
    let mut ok = |c: &Value, evals: &mut u64| -> bool {
        if t0.elapsed().as_secs() >= secs {
            return false;
        }
        if !tried.insert(hash_str(&c.to_string())) {
            return false;
        }
        *evals += 1;
        shows(c)
    };
    loop {
        let before = best.to_string();
        // drop parts of arrays
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        for p in &ps {
            let Some(Value::Array(a)) = at(&best, p) else { continue };
            let mut a = a.clone();
            let mut n = a.len();
            while n >= 1 {
                let mut i = 0;
                while i < a.len() {
                    let mut c = a.clone();
                    c.drain(i..(i + n).min(a.len()));
                    let cand = with(&best, p, Value::Array(c.clone()));
                    if ok(&cand, &mut evals) {
                        best = cand;
                        a = c;
                    } else {
                        i += n;
                    }
                }
                n /= 2;
            }
        }
        // simplify scalars
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        for p in &ps {
            match at(&best, p) {
                Some(Value::Number(n)) if n.is_f64() => {}
                Some(Value::Number(n)) => {
                    let mut cur: i128 = n.as_i64().map(i128::from).or(n.as_u64().map(i128::from)).unwrap_or(0);
                    let num = |x: i128| -> Value {
                        if x < 0 {
                            json!(x as i64)
                        } else {
                            json!(x as u64)
                        }
                    };
                    if cur == 0 {
                        continue;
                    }
                    for c in [0, 1, 2, 3, 8] {
                        if c < cur.abs() && ok(&with(&best, p, num(c)), &mut evals) {
                            best = with(&best, p, num(c));
                            cur = c;
                            break;
                        }
                    }
                    let mut d = cur / 2;
                    let mut tries = 0;
                    while d != 0 && tries < 40 {
                        tries += 1;
                        let c = cur - d;
                        if ok(&with(&best, p, num(c)), &mut evals) {
                            best = with(&best, p, num(c));
                            cur = c;
                            d = if d.abs() > cur.abs() { cur / 2 } else { d };
                        } else {
                            d /= 2;
                        }
                    }
                }
                Some(Value::Bool(true)) => {
                    let cand = with(&best, p, Value::Bool(false));
                    if ok(&cand, &mut evals) {
                        best = cand;
                    }
                }
                _ => {}
            }
        }
        if best.to_string() == before || t0.elapsed().as_secs() >= secs {
            return (best, evals);
        }
    }
}

// ---------------------------------------------------------------- the check

struct Shared {
    best: u64,
    viols: BTreeMap<u64, Viol>,
    known: BTreeMap<String, u64>,
    c: BTreeMap<String, u64>,
    evals: u64,
    done: u64,
    digests: HashSet<u64>,
    nontrivial: HashSet<u64>,
    all_digests: BTreeMap<u64, u64>,
    not_judged: u64,
    crashes: u64,
    timeout: bool,
    reached: Vec<u64>,
}

pub struct Known {
    pub property: String,
    pub class: String,
    pub needle: String,
    pub text: String,
}

/// known_findings.txt: lines `finding: property=<id> class=<class> match=<substring of the detail> | <text>`
pub fn load_known(root: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(format!("{root}/known_findings.txt")) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let (head, text) = l.split_once(" | ")?;
            let rest = head.strip_prefix("property=")?;
            let (property, rest) = rest.split_once(" class=")?;
            let (class, needle) = rest.split_once(" match=")?;
            Some(Known {
                property: property.into(),
                class: class.into(),
                needle: needle.into(),
                text: text.into(),
            })
        })
        .collect()
}

pub fn check(p: &'static dyn Prop, seed: u64, tier: Tier, root: &str, limit: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let id = p.id();
    let (q, t) = p.count();
    let total = limit.unwrap_or(if tier == Tier::Quick { q } else { t });
    let wall_cap = std::env::var("SIM_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 420u64,
        Tier::Thorough => 36_000,
    });
    let known = Arc::new(load_known(root));
    let sh = Arc::new(Mutex::new(Shared {
        best: u64::MAX,
        viols: BTreeMap::new(),
        known: BTreeMap::new(),
        c: BTreeMap::new(),
        evals: 0,
        done: 0,
        digests: HashSet::new(),
        nontrivial: HashSet::new(),
        all_digests: BTreeMap::new(),
        not_judged: 0,
        crashes: 0,
        timeout: false,
        reached: vec![],
    }));
    let n = p.threads().min(std::thread::available_parallelism().map_or(8, |x| x.get())).max(1) as u64;
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let sh = sh.clone();
            let known = known.clone();
            std::thread::spawn(move || slot(p, seed, tier, k, total, n, sh, known, t0, wall_cap))
        })
        .collect();
    for h in hs {
        h.join().expect("runner thread");
    }
    let explored_s = t0.elapsed().as_secs_f64();
    let mut s = sh.lock().unwrap();
    // determinism self-check: a sample of scenarios again in another process
    let mut j = Judge::new(id, false);
    let keys: Vec<u64> = s.all_digests.keys().copied().collect();
    let mut rechecked = 0;
    let mut mismatches = 0;
    let step = (keys.len() / 12).max(1);
    for k in keys.iter().step_by(step).take(14) {
        let sc = scenario(p, seed, *k, tier);
        let (v, d, _) = j.eval(&sc);
        if v.is_none() || !s.viols.contains_key(k) {
            rechecked += 1;
            if d != s.all_digests[k] {
                mismatches += 1;
                eprintln!("note: scenario {k} was not repeated exactly");
            }
        }
    }
    drop(j);
    for (t, n) in &s.known {
        println!("KNOWN-FINDING: property={id} {t} ({n} scenarios)");
    }
    let mut code = 0;
    let mut replay = String::new();
    let first = s.viols.iter().next().map(|(k, v)| (*k, v.clone()));
    if let Some((idx, v)) = &first {
        code = 1;
        let sc = scenario(p, seed, *idx, tier);
        let mut j = Judge::new(id, false);
        let secs = if tier == Tier::Quick { 40 } else { 240 };
        let (mut min, mut evals) = minimise(&mut j, &sc, &v.class, secs);
        drop(j);
        let shows = |before: &[Value], sc: &Value| Judge::after(id, false, before).eval(sc).0.is_some_and(|x| x.class == v.class);
        let mut before = vec![];
        if !shows(&before, &min) {
            // what the library keeps from one scenario to the next is part of the failure: find the scenarios before it
            min = sc.clone();
            let mut k = 0;
            while !shows(&before, &sc) && before.len() == k && k < 1000 {
                k = (2 * k).max(1);
                before = (1..=k as u64).rev().filter_map(|i| idx.checked_sub(i * n)).map(|i| scenario(p, seed, i, tier)).collect();
            }
            let t1 = Instant::now();
            let mut step = before.len().div_ceil(2);
            while step > 0 && shows(&before, &sc) {
                let mut i = 0;
                while i < before.len() && t1.elapsed().as_secs() < secs {
                    let mut c = before.clone();
                    c.drain(i..(i + step).min(c.len()));
                    if shows(&c, &sc) {
                        before = c;
                    } else {
                        i += step;
                    }
                }
                step /= 2;
            }
            for i in 0..before.len() {
                before[i] = minimise_by(|c| {
                    let mut b = before.clone();
                    b[i] = c.clone();
                    shows(&b, &sc)
                }, &before[i], secs / 4).0;
            }
            let (m, e) = minimise(&mut Judge::after(id, false, &before), &min, &v.class, secs);
            (min, evals) = (m, evals + e);
        }
        let (mv, _, tr) = Judge::after(id, true, &before).eval(&min);
        let (fv, digest, _) = Judge::after(id, false, &before).eval(&min);
        let (fv2, fdigest, _) = Judge::after(id, false, &before).eval(&min);
        let reproduced = fv.as_ref().is_some_and(|x| x.class == v.class) && fv == fv2 && fdigest == digest;
        let (scn, mv) = match (reproduced, mv) {
            (true, Some(mv)) => (min, mv),
            _ => (sc.clone(), v.clone()),
        };
        std::fs::create_dir_all(format!("{root}/replays")).ok();
        replay = format!("{root}/replays/{id}-{seed}-{idx}.json");
        let doc = json!({
            "property": id, "seed": seed, "index": idx, "tier": format!("{tier:?}"),
            "class": mv.class, "detail": mv.detail, "digest": fdigest,
            "minimiser_evaluations": evals, "reproduced_in_fresh_process": reproduced,
            "before": before, "scenario": scn, "original_scenario": sc, "trace": tr,
        });
        std::fs::write(&replay, serde_json::to_string_pretty(&doc).unwrap()).ok();
        println!("violation of {id}: [{}] {}", mv.class, mv.detail);
        println!("scenario {idx} of seed {seed}, minimised with {evals} evaluations");
        println!("VIOLATION property={id} replay={replay}");
    }
    if let Some(f) = std::env::var_os("SIM_COVERAGE") {
        // development aid: the edges and whether they were reached
        let t: String = alloc::addresses().iter().enumerate().map(|(i, a)| format!("{a} {}\n", s.reached.get(i / 64).map_or(0, |w| w >> (i % 64) & 1))).collect();
        std::fs::write(f, t).ok();
    }
    let faults: Map<String, Value> = s.c.iter().filter(|(k, _)| k.starts_with("fault:")).map(|(k, v)| (k[6..].to_string(), json!(v))).collect();
    let counters: Map<String, Value> = s.c.iter().filter(|(k, _)| !k.starts_with("fault:")).map(|(k, v)| (k.clone(), json!(v))).collect();
    let samples: Vec<Value> = keys
        .iter()
        .filter(|k| s.all_digests.contains_key(k))
        .take(2)
        .chain(keys.last())
        .map(|k| {
            let sc = scenario(p, seed, *k, tier);
            let txt = sc.to_string();
            let sc = if txt.len() > 6000 { json!(format!("{}…", txt.chars().take(6000).collect::<String>())) } else { sc };
            json!({"index": k, "scenario": sc, "digest": format!("{:016x}", s.all_digests[k])})
        })
        .collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": p.level(),
        "coverage": {
            "evaluations": s.evals,
            "distinct_nontrivial": s.nontrivial.len(),
            "rule": p.rule(),
            "samples": samples,
            "simulated_runs": s.done,
            "runs_planned": total,
            "stopped_by_wall_clock": s.timeout,
            "runs_per_hour": (s.done as f64 / explored_s.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (s.done as f64 / explored_s.max(0.001) * 3600.0) as u64,
            "simulated_time": "the system under test reads no clock; progress is counted in simulated I/O operations (counter sim_ops)",
            "distinct_event_logs": s.digests.len(),
            "distinctness_measure": "64-bit digest over the complete log of simulated calls (position, size, outcome) and observed results of a run",
            "library_edges_reached": s.reached.iter().map(|w| u64::from(w.count_ones())).sum::<u64>(),
            "library_edges": alloc::edges(),
            "faults_injected": faults,
            "counters": counters,
            "determinism_rechecked": rechecked,
            "determinism_mismatches": mismatches,
            "not_judged": s.not_judged,
            "worker_crashes": s.crashes,
            "components_real": p.real(),
            "components_stubbed": p.stubs(),
        },
        "assumptions": p.assumptions(),
        "wall_s": wall,
        "violations": s.viols.len(),
    });
    std::fs::create_dir_all(format!("{root}/evidence")).ok();
    if let Err(e) = std::fs::write(format!("{root}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write the evidence file: {e}");
        code = code.max(2);
    }
    println!(
        "{id}: {} runs, {} evaluations, {} distinct non-trivial, {} not judged, {:.1} s{}",
        s.done,
        s.evals,
        s.nontrivial.len(),
        s.not_judged,
        wall,
        if replay.is_empty() { "" } else { " (violation)" }
    );
    s.viols.clear();
    code
}

#[allow(clippy::too_many_arguments)]
fn slot(
    p: &'static dyn Prop,
    seed: u64,
    tier: Tier,
    k: u64,
    total: u64,
    stride: u64,
    sh: Arc<Mutex<Shared>>,
    known: Arc<Vec<Known>>,
    t0: Instant,
    wall_cap: u64,
) {
    let mut from = k;
    'outer: while from < total {
        let mut ch = Command::new(std::env::current_exe().unwrap())
            .args([
                "worker",
                p.id(),
                &seed.to_string(),
                if tier == Tier::Quick { "quick" } else { "thorough" },
                &from.to_string(),
                &total.to_string(),
                &stride.to_string(),
            ])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        let mut rd = BufReader::new(ch.stdout.take().unwrap());
        let mut cur = from;
        let mut mem = false;
        let mut line = String::new();
        loop {
            line.clear();
            match rd.read_line(&mut line) {
                Ok(0) | Err(_) => break,
                Ok(_) => {}
            }
            let l = line.trim_end();
            if let Some(x) = l.strip_prefix("B ") {
                cur = x.parse().unwrap();
                let mut s = sh.lock().unwrap();
                if t0.elapsed().as_secs() > wall_cap {
                    s.timeout = true;
                }
                if cur > s.best || s.timeout {
                    drop(s);
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return;
                }
            } else if l == "M" {
                mem = true;
            } else if let Some(x) = l.strip_prefix("D ") {
                let mut it = x.split(' ');
                let idx: u64 = it.next().unwrap().parse().unwrap();
                let d: u64 = it.next().unwrap().parse().unwrap();
                let nt = it.next() == Some("1");
                let mut s = sh.lock().unwrap();
                s.done += 1;
                s.digests.insert(d);
                if nt {
                    s.nontrivial.insert(d);
                }
                if idx % 64 < 8 && s.all_digests.len() < 4096 {
                    s.all_digests.insert(idx, d);
                }
            } else if let Some(x) = l.strip_prefix("V ") {
                let v: Value = serde_json::from_str(x).unwrap();
                let vi = Viol {
                    class: v["class"].as_str().unwrap().into(),
                    detail: v["detail"].as_str().unwrap().into(),
                };
                record(p.id(), v["idx"].as_u64().unwrap(), vi, &sh, &known);
            } else if let Some(x) = l.strip_prefix("S ") {
                let v: Value = serde_json::from_str(x).unwrap();
                let mut s = sh.lock().unwrap();
                s.evals += v["evals"].as_u64().unwrap();
                for (k, n) in v["c"].as_object().unwrap() {
                    *s.c.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
                }
            } else if let Some(x) = l.strip_prefix("C ") {
                let w: Vec<u64> = x.as_bytes().chunks(16).map(|c| u64::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
                let mut s = sh.lock().unwrap();
                s.reached.resize(w.len(), 0);
                s.reached.iter_mut().zip(w).for_each(|(a, b)| *a |= b);
            } else if l == "E" {
                let _ = ch.wait();
                break 'outer;
            }
        }
        let st = ch.wait().expect("wait for worker");
        match crash_viol(st, mem) {
            None => sh.lock().unwrap().not_judged += 1,
            Some(v) => {
                sh.lock().unwrap().crashes += 1;
                record(p.id(), cur, v, &sh, &known);
            }
        }
        from = cur + stride;
    }
}

fn record(id: &str, idx: u64, v: Viol, sh: &Arc<Mutex<Shared>>, known: &[Known]) {
    let mut s = sh.lock().unwrap();
    for k in known {
        if k.property == id && v.class == k.class && v.detail.contains(&k.needle) {
            *s.known.entry(k.text.clone()).or_insert(0) += 1;
            return;
        }
    }
    s.best = s.best.min(idx);
    s.viols.insert(idx, v);
}

pub fn replay(p: &dyn Prop, doc: &Value) -> i32 {
    let before = doc["before"].as_array().cloned().unwrap_or_default();
    let (v, _, tr) = Judge::after(p.id(), true, &before).eval(&doc["scenario"]);
    let (v2, digest, _) = Judge::after(p.id(), false, &before).eval(&doc["scenario"]);
    for t in &tr {
        println!("  {t}");
    }
    match v2 {
        None => {
            println!("not reproduced: the property held on this scenario");
            0
        }
        Some(x) => {
            println!("violation of {}: [{}] {}", p.id(), x.class, x.detail);
            let same = Some(x.class.as_str()) == doc["class"].as_str()
                && Some(x.detail.as_str()) == doc["detail"].as_str()
                && v.as_ref() == Some(&x)
                && Some(digest) == doc["digest"].as_u64();
            println!("{}", if same { "exact repetition of the recorded run" } else { "differs from the recorded run" });
            1
        }
    }
}

/// development aid: list distinct violation classes over many scenarios
pub fn survey(p: &'static dyn Prop, seed: u64, tier: Tier, total: u64) {
    let mut classes: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let known = Arc::new(vec![]);
    let sh = Arc::new(Mutex::new(Shared {
        best: u64::MAX,
        viols: BTreeMap::new(),
        known: BTreeMap::new(),
        c: BTreeMap::new(),
        evals: 0,
        done: 0,
        digests: HashSet::new(),
        nontrivial: HashSet::new(),
        all_digests: BTreeMap::new(),
        not_judged: 0,
        crashes: 0,
        timeout: false,
        reached: vec![],
    }));
    // run in chunks so that one violation does not stop the rest
    let n = p.threads() as u64;
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let sh = sh.clone();
            let known: Arc<Vec<Known>> = known.clone();
            std::thread::spawn(move || {
                let mut i = k;
                while i < total {
                    let sub = Arc::new(Mutex::new(Shared {
                        best: u64::MAX,
                        viols: BTreeMap::new(),
                        known: BTreeMap::new(),
                        c: BTreeMap::new(),
                        evals: 0,
                        done: 0,
                        digests: HashSet::new(),
                        nontrivial: HashSet::new(),
                        all_digests: BTreeMap::new(),
                        not_judged: 0,
                        crashes: 0,
                        timeout: false,
                        reached: vec![],
                    }));
                    slot(p, seed, tier, i, total, n, sub.clone(), known.clone(), Instant::now(), 10_000);
                    let mut s = sub.lock().unwrap();
                    let last = s.viols.keys().next().copied();
                    let mut g = sh.lock().unwrap();
                    g.viols.append(&mut s.viols);
                    g.not_judged += s.not_judged;
                    g.done += s.done;
                    match last {
                        Some(x) => i = x + n,
                        None => break,
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let g = sh.lock().unwrap();
    for (i, v) in &g.viols {
        let key = if v.class.starts_with("panic") { v.detail.split(": ").next().unwrap_or("").to_string() } else { v.class.clone() };
        let e = classes.entry(key).or_insert((0, *i, v.detail.clone()));
        e.0 += 1;
    }
    println!("{} runs, {} not judged", g.done, g.not_judged);
    for (k, (n, i, d)) in classes {
        println!("{n:6} x {k}   first #{i}: {}", d.chars().take(300).collect::<String>());
    }
}

pub fn scenario_of(p: &dyn Prop, seed: u64, idx: u64, tier: Tier) -> Value {
    scenario(p, seed, idx, tier)
}
