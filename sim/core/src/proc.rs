//! One simulated process: a real program under the fault-injecting libc layer (shim/shim.c), with all its files in a
//! scratch directory of its own.

use crate::rng::{hash_str, mix, Rng};
use crate::runner::Stats;
use serde::{Deserialize, Serialize};
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const CLS: [char; 3] = ['I', 'O', 'S'];
pub const OPS: [char; 4] = ['o', 'r', 'w', 's'];

/// Errors of each call; index 0 of `write` is a transfer of 0 octets.
pub const E_OPEN: [(&str, i32); 6] = [("ENOENT", 2), ("EACCES", 13), ("EMFILE", 24), ("EIO", 5), ("ENOMEM", 12), ("ENOSPC", 28)];
pub const E_READ: [(&str, i32); 6] = [("EIO", 5), ("EAGAIN", 11), ("ESTALE", 116), ("ENOMEM", 12), ("ETIMEDOUT", 110), ("EINVAL", 22)];
pub const E_WRITE: [(&str, i32); 7] = [("EIO", 5), ("ENOSPC", 28), ("EDQUOT", 122), ("EFBIG", 27), ("EAGAIN", 11), ("EPIPE", 32), ("zero", 0)];
pub const E_SEEK: [(&str, i32); 3] = [("EIO", 5), ("ESPIPE", 29), ("EINVAL", 22)];

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Legal {
    /// 0: input, 1: output file, 2: standard output
    pub cls: u8,
    pub seed: u64,
    /// per mille of transfers that are short / interrupted
    pub short: u16,
    pub intr: u16,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct PFault {
    pub cls: u8,
    /// 0: open, 1: read, 2: write, 3: seek
    pub op: u8,
    pub at: u32,
    /// index into the errors of the call
    pub kind: u8,
    /// 0: for ever
    pub times: u32,
}

impl PFault {
    pub fn error(&self) -> (&'static str, i32) {
        let k = usize::from(self.kind);
        match self.op % 4 {
            0 => E_OPEN[k % E_OPEN.len()],
            1 => E_READ[k % E_READ.len()],
            2 => E_WRITE[k % E_WRITE.len()],
            _ => E_SEEK[k % E_SEEK.len()],
        }
    }
}

/// Standard output is a terminal; the pager is simulated by the libc layer.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Term {
    pub rows: u16,
    /// 0: the pager shows everything, 1: fork fails, 2: the pager cannot be executed, 3: it is left after `quit` octets
    pub mode: u8,
    pub seed: u64,
    pub quit: u32,
    /// `less` is not installed (`more` is taken)
    pub no_less: bool,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Plan {
    pub legal: Vec<Legal>,
    pub faults: Vec<PFault>,
    /// room in octets on the device of class `.0`
    pub room: Vec<(u8, u32)>,
    pub rnd: u64,
    pub term: Option<Term>,
}

impl Plan {
    pub fn text(&self) -> String {
        let mut v = vec![format!("r:{}", self.rnd)];
        for l in &self.legal {
            v.push(format!("d{}:{}:{}:{}", CLS[usize::from(l.cls) % 3], l.seed, l.short.min(1000), l.intr.min(900)));
        }
        for f in self.faults.iter().take(60) {
            v.push(format!("f{}{}:{}:{}:{}", CLS[usize::from(f.cls) % 3], OPS[usize::from(f.op) % 4], f.at, f.error().1, f.times));
        }
        for (c, n) in &self.room {
            v.push(format!("b{}:{n}", CLS[usize::from(*c) % 3]));
        }
        if let Some(t) = &self.term {
            v.push(format!("t:{}:{}:{}:{}", t.rows, t.mode % 4, t.seed, t.quit));
        }
        v.join(" ")
    }
}

pub fn gen_legal(r: &mut Rng, cls: u8) -> Legal {
    Legal {
        cls,
        seed: r.u64(),
        short: *r.pick(&[0u16, 50, 300, 700, 1000]),
        intr: *r.pick(&[0u16, 50, 300, 600]),
    }
}

pub const LOG: usize = 8 + 3 * 4 * 8 * 2 + 3 * 8 * 4 + 3 * 2 * 8 + 8 * 6;
const LOG_FILE: usize = LOG + 60_000;

#[derive(Clone, Debug, Default)]
pub struct Log {
    pub loaded: bool,
    pub calls: [[u64; 4]; 3],
    pub errs: [[u64; 4]; 3],
    pub shorts: [u64; 3],
    pub intrs: [u64; 3],
    pub zero: [u64; 3],
    pub nospace: [u64; 3],
    pub digest: u64,
    pub randoms: u64,
    pub budget: bool,
    pub pagers: u64,
    /// how the process that prints into the pager ended: 1000 + exit status or 2000 + signal
    pub child: u64,
    pub trace: String,
}

impl Log {
    fn parse(b: &[u8]) -> Log {
        let mut p = 0;
        let mut u = || {
            p += 8;
            b.get(p - 8..p).map_or(0, |x| u64::from_le_bytes(x.try_into().unwrap()))
        };
        let mut l = Log { loaded: u() == 0x67726962, ..Default::default() };
        for c in 0..3 {
            for o in 0..4 {
                l.calls[c][o] = u();
            }
        }
        for c in 0..3 {
            for o in 0..4 {
                l.errs[c][o] = u();
            }
        }
        for a in [&mut l.shorts, &mut l.intrs, &mut l.zero, &mut l.nospace] {
            for x in a.iter_mut() {
                *x = u();
            }
        }
        for _ in 0..6 {
            u();
        }
        l.digest = u();
        l.randoms = u();
        l.budget = u() != 0;
        l.pagers = u();
        l.child = u();
        let n = u() as usize;
        let t = b.get(LOG..(LOG + n).min(b.len())).unwrap_or_default();
        l.trace = String::from_utf8_lossy(t).into_owned();
        l
    }
    /// faults after which the operation cannot be complete unless the program repeats it
    pub fn hard(&self) -> u64 {
        self.errs.iter().flatten().sum::<u64>() + self.zero.iter().sum::<u64>() + self.nospace.iter().sum::<u64>()
    }
    pub fn hard_of(&self, c: usize) -> u64 {
        self.errs[c].iter().sum::<u64>() + self.zero[c] + self.nospace[c]
    }
    pub fn stats(&self, st: &mut Stats) {
        let cn = ["input", "output", "stdout"];
        let on = ["open", "read", "write", "seek"];
        for c in 0..3 {
            for o in 0..4 {
                st.add(&format!("fault:{}_{}_error", cn[c], on[o]), self.errs[c][o]);
                st.add("sim_ops", self.calls[c][o]);
            }
            st.add(&format!("fault:{}_short", cn[c]), self.shorts[c]);
            st.add(&format!("fault:{}_interrupted", cn[c]), self.intrs[c]);
            st.add(&format!("fault:{}_zero_write", cn[c]), self.zero[c]);
            st.add(&format!("fault:{}_device_full", cn[c]), self.nospace[c]);
        }
        st.add("pagers", self.pagers);
        st.mix(self.digest);
    }
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub log: Log,
    pub timeout: bool,
}

impl Outcome {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// What it said, without what differs from run to run (process numbers, scratch paths).
    pub fn err_text(&self) -> String {
        let t = String::from_utf8_lossy(&self.stderr).replace(scratch().to_str().unwrap_or("?"), "$DIR");
        let mut out = String::new();
        let mut rest = t.as_str();
        while let Some(i) = rest.find(" (") {
            let tail = &rest[i + 2..];
            let n = tail.bytes().take_while(u8::is_ascii_digit).count();
            out.push_str(&rest[..i]);
            if n > 0 && tail[n..].starts_with(')') {
                rest = &tail[n + 1..];
            } else {
                out.push_str(" (");
                rest = tail;
            }
        }
        out.push_str(rest);
        out.chars().take(400).collect()
    }
    pub fn status(&self) -> String {
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit status {c}"),
            (_, Some(s)) => format!("signal {s}"),
            _ => "no status".into(),
        }
    }
}

pub struct Scratch {
    pub dir: PathBuf,
}

/// The scratch directory of this process, below the one made by the runner.
pub fn scratch() -> PathBuf {
    use std::sync::OnceLock;
    static S: OnceLock<PathBuf> = OnceLock::new();
    S.get_or_init(|| {
        let d = scratch_root().join(format!("{:08}", std::process::id()));
        fs::create_dir_all(&d).expect("scratch directory");
        d
    })
    .clone()
}

pub fn scratch_root() -> PathBuf {
    if let Some(d) = std::env::var_os("SIM_SCRATCH") {
        return PathBuf::from(d);
    }
    let base = if Path::new("/dev/shm").is_dir() && fs::create_dir_all("/dev/shm/grib-sim").is_ok() {
        PathBuf::from("/dev/shm/grib-sim")
    } else {
        root().join("target/scratch")
    };
    base.join(format!("run-{:08}", std::process::id()))
}

/// Removes what killed runs left behind.
pub fn clear_stale() {
    let r = scratch_root();
    let Some(base) = r.parent() else { return };
    for e in fs::read_dir(base).into_iter().flatten().flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        if let Some(pid) = name.strip_prefix("run-").and_then(|p| p.parse::<u32>().ok()) {
            if !Path::new(&format!("/proc/{pid}")).exists() {
                let _ = fs::remove_dir_all(e.path());
            }
        }
    }
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var_os("SIM_ROOT").unwrap_or_else(|| "/verif".into()))
}

pub fn bin_dir() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().to_path_buf()
}

/// A directory to search for programs that has `less` in it, or nothing. (It is looked for, but never executed.)
fn pager_dir(empty: bool) -> PathBuf {
    use std::os::unix::fs::PermissionsExt;
    let d = scratch().join(if empty { "path0" } else { "path1" });
    if !d.is_dir() {
        fs::create_dir_all(&d).expect("scratch");
        if !empty {
            fs::write(d.join("less"), b"").expect("scratch");
            fs::set_permissions(d.join("less"), fs::Permissions::from_mode(0o755)).expect("scratch");
        }
    }
    d
}

pub struct Job<'a> {
    pub program: PathBuf,
    pub args: Vec<String>,
    pub input: &'a str,
    pub out_dir: &'a str,
    pub plan: &'a Plan,
    pub env: Vec<(String, String)>,
    pub cpu: u32,
    pub tracing: bool,
    pub cwd: Option<PathBuf>,
}

pub fn run(j: &Job) -> Outcome {
    let d = scratch();
    let (log, so, se) = (d.join("log"), d.join("stdout"), d.join("stderr"));
    let zero = vec![0u8; if j.tracing { LOG_FILE } else { LOG }];
    fs::write(&log, &zero).expect("scratch");
    let lf = fs::OpenOptions::new().write(true).open(&log).expect("scratch");
    lf.set_len(LOG_FILE as u64).expect("scratch");
    drop(lf);
    let mk = |p: &Path| fs::File::create(p).expect("scratch");
    let path = match &j.plan.term {
        None => std::env::var_os("PATH").unwrap_or_default(),
        Some(t) => pager_dir(t.no_less).into_os_string(),
    };
    let mut c = Command::new(&j.program);
    c.args(&j.args)
        .env_clear()
        .env("LC_ALL", "C")
        .env("TERM", "dumb")
        .env("PATH", path)
        .env("LD_PRELOAD", bin_dir().join("libgribshim.so"))
        .env("GRIBSIM_IN", j.input)
        .env("GRIBSIM_DIR", j.out_dir)
        .env("GRIBSIM_LOG", &log)
        .env("GRIBSIM_PLAN", j.plan.text())
        .env("GRIBSIM_CPU", j.cpu.to_string())
        .stdin(Stdio::null())
        .stdout(mk(&so))
        .stderr(mk(&se));
    if j.tracing {
        c.env("GRIBSIM_TRACE", "1");
    }
    if let Some(p) = &j.cwd {
        c.current_dir(p);
    }
    for (k, v) in &j.env {
        c.env(k, v);
    }
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => panic!("cannot start {}: {e}", j.program.display()),
    };
    let mut timeout = false;
    unsafe {
        let pfd = libc::syscall(libc::SYS_pidfd_open, ch.id() as libc::pid_t, 0) as i32;
        if pfd >= 0 {
            let mut p = libc::pollfd { fd: pfd, events: libc::POLLIN, revents: 0 };
            loop {
                let r = libc::poll(&mut p, 1, 120_000);
                if r == 0 {
                    timeout = true;
                    let _ = ch.kill();
                } else if r < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                    continue;
                }
                break;
            }
            libc::close(pfd);
        }
    }
    let st = ch.wait().expect("wait");
    let o = Outcome {
        code: st.code(),
        signal: st.signal(),
        stdout: fs::read(&so).unwrap_or_default(),
        stderr: fs::read(&se).unwrap_or_default(),
        log: Log::parse(&fs::read(&log).unwrap_or_default()),
        timeout,
    };
    assert!(o.log.loaded, "the libc layer was not loaded into {}: {}", j.program.display(), o.err_text());
    crate::runner::trace(|| format!("$ {} {:?} plan [{}] -> {}; {} octets on stdout; stderr: {:?}\n{}", j.program.display(), j.args, j.plan.text(), o.status(), o.stdout.len(), o.err_text().lines().next().unwrap_or(""), o.log.trace));
    o
}

pub fn digest_outcome(o: &Outcome, st: &mut Stats) {
    st.mix(o.code.map_or(7, |c| c as u64) ^ o.signal.map_or(0, |s| (s as u64) << 32));
    let mut h = 0u64;
    for c in o.stdout.chunks(8) {
        let mut b = [0; 8];
        b[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(b));
    }
    st.mix(h);
    st.mix(hash_str(if o.stderr.is_empty() { "" } else { "message" }));
}
