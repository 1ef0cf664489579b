//! Counting allocator: memory use of the code under test against an explicit budget.
use std::cell::Cell;
use std::ffi::c_void;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicI64 = AtomicI64::new(0);
static BASE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
static OVER: AtomicU64 = AtomicU64::new(0);
/// allocations within the budget but beyond what this sandbox should serve
const HARD: i64 = 2 << 30;

pub fn begin(limit: i64) {
    let l = LIVE.load(Relaxed);
    BASE.store(l, Relaxed);
    PEAK.store(l, Relaxed);
    OVER.store(0, Relaxed);
    LIMIT.store(limit, Relaxed);
}
pub fn end() {
    LIMIT.store(i64::MAX, Relaxed);
}
/// size of a request that exceeded the budget, 0 if none
pub fn over() -> u64 {
    OVER.load(Relaxed)
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed) - BASE.load(Relaxed)
}

fn admit(size: usize) -> bool {
    let limit = LIMIT.load(Relaxed);
    if limit == i64::MAX {
        LIVE.fetch_add(size as i64, Relaxed);
        return true;
    }
    let used = LIVE.load(Relaxed) - BASE.load(Relaxed) + size as i64;
    if used > limit {
        OVER.store(size as u64, Relaxed);
        crate::runner::raw_line(b"M\n");
        return false;
    }
    if used > HARD {
        unsafe { libc::_exit(77) }
    }
    let now = LIVE.fetch_add(size as i64, Relaxed) + size as i64;
    PEAK.fetch_max(now, Relaxed);
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !admit(l.size()) {
            return std::ptr::null_mut();
        }
        rust(|| System.alloc(l))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !admit(l.size()) {
            return std::ptr::null_mut();
        }
        rust(|| System.alloc_zeroed(l))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && !admit(n - l.size()) {
            return std::ptr::null_mut();
        }
        if n < l.size() {
            LIVE.fetch_sub((l.size() - n) as i64, Relaxed);
        }
        rust(|| System.realloc(p, l, n))
    }
}

// Allocations of C libraries (openjpeg): the C allocation functions of the whole program come through here.

thread_local! {
    /// within an allocation of Rust code
    static RUST: Cell<bool> = const { Cell::new(false) };
    /// allocations of C code on this thread: so many succeed before they fail, and how many fail then
    static C_FAIL: Cell<(u64, u64)> = const { Cell::new((u64::MAX, 0)) };
    static C_COUNT: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

/// a single request of C code beyond the budget may be this much larger
const C_EXTRA: i64 = 256 << 20;

fn rust<T>(f: impl FnOnce() -> T) -> T {
    let was = RUST.with(|r| r.replace(true));
    let x = f();
    RUST.with(|r| r.set(was));
    x
}

/// From now on, `n` allocations of C code on this thread succeed and the following `times` fail.
pub fn c_arm(n: u64, times: u64) {
    C_FAIL.with(|c| c.set((n, times)));
    C_COUNT.with(|c| c.set((0, 0)));
}
/// Ends this; returns how many allocations were asked for, and how many of them failed.
pub fn c_disarm() -> (u64, u64) {
    C_FAIL.with(|c| c.set((u64::MAX, 0)));
    C_COUNT.with(|c| c.get())
}

fn c_admit(size: usize) -> bool {
    if RUST.with(|r| r.get()) {
        return true;
    }
    let (seen, failed) = C_COUNT.with(|c| c.get());
    let (n, times) = C_FAIL.with(|c| c.get());
    let fail = seen >= n && failed < times;
    C_COUNT.with(|c| c.set((seen + 1, failed + u64::from(fail))));
    if fail {
        return false;
    }
    let limit = LIMIT.load(Relaxed);
    if size as i64 > limit.saturating_add(C_EXTRA) || size > i64::MAX as usize {
        OVER.store(size as u64, Relaxed);
        return false;
    }
    true
}

extern "C" {
    fn __libc_malloc(n: usize) -> *mut c_void;
    fn __libc_calloc(n: usize, m: usize) -> *mut c_void;
    fn __libc_realloc(p: *mut c_void, n: usize) -> *mut c_void;
    fn __libc_memalign(a: usize, n: usize) -> *mut c_void;
    fn __libc_free(p: *mut c_void);
}

thread_local! {
    /// octets that this thread allocated, by any means, less those it gave back
    static HELD: Cell<i64> = const { Cell::new(0) };
    /// octets that this thread ever asked for
    static ASKED: Cell<u64> = const { Cell::new(0) };
}

/// Octets that this thread ever asked for.
pub fn asked() -> u64 {
    ASKED.with(|h| h.get())
}

/// Octets that this thread took and has not given back yet.
pub fn c_live() -> i64 {
    HELD.with(|h| h.get())
}

unsafe fn taken(p: *mut c_void) -> *mut c_void {
    if !p.is_null() {
        let n = libc::malloc_usable_size(p) as i64;
        HELD.with(|h| h.set(h.get() + n));
        ASKED.with(|h| h.set(h.get() + n as u64));
    }
    p
}

unsafe fn given(p: *mut c_void) -> i64 {
    if p.is_null() {
        return 0;
    }
    let n = libc::malloc_usable_size(p) as i64;
    HELD.with(|h| h.set(h.get() - n));
    n
}

#[no_mangle]
unsafe extern "C" fn malloc(n: usize) -> *mut c_void {
    if !c_admit(n) {
        return std::ptr::null_mut();
    }
    maybe_yield();
    taken(__libc_malloc(n))
}
#[no_mangle]
unsafe extern "C" fn calloc(n: usize, m: usize) -> *mut c_void {
    if !c_admit(n.saturating_mul(m)) {
        return std::ptr::null_mut();
    }
    maybe_yield();
    taken(__libc_calloc(n, m))
}
#[no_mangle]
unsafe extern "C" fn realloc(p: *mut c_void, n: usize) -> *mut c_void {
    if !c_admit(n) {
        return std::ptr::null_mut();
    }
    maybe_yield();
    let had = given(p);
    let q = __libc_realloc(p, n);
    if q.is_null() && n > 0 {
        HELD.with(|h| h.set(h.get() + had));
    }
    taken(q)
}
#[no_mangle]
unsafe extern "C" fn free(p: *mut c_void) {
    if !p.is_null() {
        maybe_yield();
    }
    given(p);
    __libc_free(p)
}
#[no_mangle]
unsafe extern "C" fn memalign(a: usize, n: usize) -> *mut c_void {
    if !c_admit(n) {
        return std::ptr::null_mut();
    }
    maybe_yield();
    taken(__libc_memalign(a, n))
}
#[no_mangle]
unsafe extern "C" fn aligned_alloc(a: usize, n: usize) -> *mut c_void {
    memalign(a, n)
}
#[no_mangle]
unsafe extern "C" fn posix_memalign(to: *mut *mut c_void, a: usize, n: usize) -> i32 {
    let p = memalign(a, n);
    if p.is_null() {
        return libc::ENOMEM;
    }
    *to = p;
    0
}

// Scheduling points inside the code under test: allocations, and locks that are taken (C21).

thread_local! {
    /// every so many allocations of this thread are a scheduling point; 0: none
    static EVERY: Cell<u32> = const { Cell::new(0) };
    static SINCE: Cell<u32> = const { Cell::new(0) };
    /// every so many edges are one, too
    static EDGES: Cell<u32> = const { Cell::new(0) };
    static PASSED: Cell<u32> = const { Cell::new(0) };
    /// the scheduler of the simulation decides when this thread runs
    static SCHEDULED: Cell<bool> = const { Cell::new(false) };
    /// within the simulator
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

pub fn yield_every(n: u32) {
    EVERY.with(|e| e.set(n));
    SINCE.with(|s| s.set(0));
}

pub fn scheduled(on: bool) {
    SCHEDULED.with(|s| s.set(on));
}

/// Runs code of the simulator: no scheduling points.
pub fn inside<T>(f: impl FnOnce() -> T) -> T {
    let was = INSIDE.with(|i| i.replace(true));
    let x = f();
    INSIDE.with(|i| i.set(was));
    x
}

/// From now on, the edges that this thread passes are counted.
pub fn steps_begin() {
    yield_edges(u32::MAX);
}
/// How many there were.
pub fn steps_end() -> u64 {
    EDGES.with(|e| e.set(0));
    PASSED.with(|s| s.get()).into()
}

/// every `n`-th edge of the control flow of the library is a scheduling point on this thread; 0: none
pub fn yield_edges(n: u32) {
    EDGES.with(|e| e.set(n));
    PASSED.with(|s| s.set(0));
}

// The library is compiled with a call at every edge of its control flow graph (sim/rustc.sh).

const MAX_EDGES: usize = 1 << 15;
static REACHED: [AtomicU64; MAX_EDGES / 64] = [const { AtomicU64::new(0) }; MAX_EDGES / 64];
static ALL: AtomicU64 = AtomicU64::new(0);
static PCS: [AtomicU64; 2] = [const { AtomicU64::new(0) }; 2];

/// How many edges there are.
pub fn edges() -> u64 {
    ALL.load(Relaxed)
}
/// Which of them this process passed at least once, as words in hexadecimal.
pub fn reached() -> String {
    let n = (edges() as usize).div_ceil(64).min(REACHED.len());
    REACHED[..n].iter().map(|w| format!("{:016x}", w.load(Relaxed))).collect()
}
/// Where they are: addresses in this executable.
pub fn addresses() -> Vec<u64> {
    let (a, b) = (PCS[0].load(Relaxed) as usize, PCS[1].load(Relaxed) as usize);
    let base = __sanitizer_cov_trace_pc_guard as usize;
    (a..b).step_by(16).map(|p| unsafe { *(p as *const usize) }.wrapping_sub(base) as u64).collect()
}

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_pcs_init(from: *const usize, to: *const usize) {
    PCS[0].store(from as u64, Relaxed);
    PCS[1].store(to as u64, Relaxed);
}

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(from: *mut u32, to: *mut u32) {
    let mut p = from;
    while p < to {
        if *p == 0 {
            *p = ALL.fetch_add(1, Relaxed) as u32 + 1;
        }
        p = p.add(1);
    }
}

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let i = *g as usize;
    if i != 0 {
        *g = 0;
        if i <= MAX_EDGES {
            REACHED[(i - 1) / 64].fetch_or(1 << ((i - 1) % 64), Relaxed);
        }
    }
    let n = EDGES.with(|e| e.get());
    if n != 0 {
        edge(n);
    }
}

fn edge(n: u32) {
    if INSIDE.with(|i| i.get()) {
        return;
    }
    let k = PASSED.with(|s| {
        s.set(s.get() + 1);
        s.get()
    });
    if k >= n {
        PASSED.with(|s| s.set(0));
        inside(crate::io::yield_point);
    }
}

fn maybe_yield() {
    let n = EVERY.with(|e| e.get());
    if n == 0 || INSIDE.with(|i| i.get()) {
        return;
    }
    let k = SINCE.with(|s| {
        s.set(s.get() + 1);
        s.get()
    });
    if k >= n {
        SINCE.with(|s| s.set(0));
        inside(crate::io::yield_point);
    }
}

thread_local! {
    /// state of the generator that stands for the random numbers of the system; 0: the real ones
    static RANDOM: Cell<u64> = const { Cell::new(0) };
}

/// From now on, what the system gives this thread as random octets follows from `seed`.
pub fn random_from(seed: u64) {
    RANDOM.with(|r| r.set(seed | 1));
}

/// The order of Rust's hash tables depends on this.
#[no_mangle]
unsafe extern "C" fn getrandom(p: *mut c_void, n: usize, flags: u32) -> isize {
    let s = RANDOM.with(|r| r.get());
    if s == 0 {
        return syscall(libc::SYS_getrandom, p as i64, n as i64, flags.into(), 0, 0, 0) as isize;
    }
    let mut x = s;
    for i in 0..n {
        if i % 8 == 0 {
            x = crate::rng::mix(x.wrapping_add(0x9e37_79b9_7f4a_7c15));
        }
        *(p as *mut u8).add(i) = (x >> (i % 8 * 8)) as u8;
    }
    RANDOM.with(|r| r.set(x | 1));
    n as isize
}

/// Rust's locks wait and wake through this. A thread that would wait gives the turn to another one instead.
#[no_mangle]
unsafe extern "C" fn syscall(n: libc::c_long, a: libc::c_long, b: libc::c_long, c: libc::c_long, d: libc::c_long, e: libc::c_long, f: libc::c_long) -> libc::c_long {
    if n == libc::SYS_futex && SCHEDULED.with(|s| s.get()) && !INSIDE.with(|i| i.get()) {
        match b as i32 & 0x7f {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                if *(a as *const u32) == c as u32 {
                    inside(crate::io::blocked);
                }
                return 0;
            }
            libc::FUTEX_WAKE => {
                inside(crate::io::yield_point);
                return 0;
            }
            _ => {}
        }
    }
    let r: libc::c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}
