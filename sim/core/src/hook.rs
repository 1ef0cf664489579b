//! In-process seam at the libc boundary: `open64` and `read` of this program go through here, so that code that opens
//! files by path (the table loader) can be fed by a schedule. Inactive unless a hook is set for the calling thread.

use crate::io::{Delivery, Fault, KINDS};
use crate::rng::mix;
use std::cell::RefCell;
use std::ffi::CStr;

#[derive(Default)]
pub struct Hook {
    pub prefix: Vec<u8>,
    pub delivery: Delivery,
    pub faults: Vec<Fault>,
    fds: Vec<i32>,
    turn: usize,
    pub ops: u64,
    pub short: u64,
    pub intr: u64,
    pub errors: Vec<u8>,
    pub digest: u64,
}

thread_local! {
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}

pub fn set(prefix: &str, delivery: &Delivery, faults: &[Fault]) {
    HOOK.with(|h| {
        *h.borrow_mut() = Some(Hook { prefix: prefix.as_bytes().to_vec(), delivery: delivery.clone(), faults: faults.to_vec(), ..Default::default() })
    });
}

pub fn take() -> Hook {
    HOOK.with(|h| h.borrow_mut().take()).unwrap_or_default()
}

impl Hook {
    fn fault(&mut self) -> Option<i32> {
        let k = self.ops;
        self.ops += 1;
        let f = self.faults.iter().find(|f| {
            let at = u64::from(f.at);
            k >= at && (f.times == 1 || k - at < u64::from(f.times.max(1)))
        })?;
        self.errors.push(f.kind);
        Some(KINDS[usize::from(f.kind) % KINDS.len()].1.unwrap_or(libc::EIO))
    }
    /// None: interrupted
    fn size(&mut self, n: usize) -> Option<usize> {
        if self.delivery.chunks.is_empty() || self.delivery.chunks.iter().all(|c| *c == 0) {
            return Some(n);
        }
        let c = self.delivery.chunks[self.turn % self.delivery.chunks.len()] as usize;
        self.turn += 1;
        if c == 0 {
            self.intr += 1;
            return None;
        }
        if c < n {
            self.short += 1;
        }
        Some(c.min(n))
    }
}

fn with<T>(f: impl FnOnce(&mut Hook) -> Option<T>) -> Option<T> {
    HOOK.try_with(|h| h.try_borrow_mut().ok().and_then(|mut h| h.as_mut().and_then(f))).ok().flatten()
}

unsafe fn fail(e: i32) {
    *libc::__errno_location() = e;
}

/// # Safety
/// as the function of libc
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    let p = CStr::from_ptr(path).to_bytes();
    let mine = with(|h| p.starts_with(&h.prefix).then_some(())).is_some();
    if mine {
        if let Some(e) = with(|h| h.fault()) {
            fail(e);
            return -1;
        }
    }
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as i32;
    with(|h| {
        h.fds.retain(|x| *x != fd);
        if mine && fd >= 0 {
            h.fds.push(fd);
        }
        h.digest = mix(h.digest ^ u64::from(mine) ^ u64::from(fd >= 0) << 1);
        Some(())
    });
    fd
}

/// # Safety
/// as the function of libc
#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    let mut n = n;
    if with(|h| h.fds.contains(&fd).then_some(())).is_some() {
        if let Some(e) = with(|h| h.fault()) {
            fail(e);
            return -1;
        }
        match with(|h| Some(h.size(n))) {
            Some(Some(m)) => n = m,
            _ => {
                fail(libc::EINTR);
                return -1;
            }
        }
        let r = libc::syscall(libc::SYS_read, fd, buf, n) as libc::ssize_t;
        with(|h| {
            h.digest = mix(h.digest ^ (r as u64) << 8 ^ n as u64);
            Some(())
        });
        return r;
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as libc::ssize_t
}
