//! Shared-memory control block of the LD_PRELOAD shim (shim/shim.c).
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

pub const KILL_BEFORE: i64 = 1;
pub const KILL_AFTER: i64 = 2;
pub const KILL_PARTIAL: i64 = 3;
pub const FAIL_EIO: i64 = 4;
pub const FAIL_ENOSPC: i64 = 5;
pub const HOLD: i64 = 6;
pub const SHORT: i64 = 7;
pub const FAIL_EIO_ALL: i64 = 8;
pub const PARTIAL_ENOSPC: i64 = 9;

#[repr(C)]
pub struct Raw {
    pub ops: AtomicI64,
    pub fire_at: AtomicI64,
    pub action: AtomicI64,
    pub fired: AtomicI64,
    pub held: AtomicI64,
    pub release: AtomicI64,
    pub clock_ns: AtomicI64,
    pub clock_calls: AtomicI64,
    pub steps: AtomicI64,
    pub step: [AtomicI64; 128],
    pub log: [u8; 64 * 256],
    pub foreign: AtomicI64,
    pub foreign_path: [u8; 1024],
}

pub struct Ctl {
    pub path: PathBuf,
    raw: *mut Raw,
}

unsafe impl Send for Ctl {}
unsafe impl Sync for Ctl {}

impl Ctl {
    pub fn new(dir: &Path) -> Ctl {
        let path = dir.join("ctl");
        let size = std::mem::size_of::<Raw>();
        let f = std::fs::OpenOptions::new().create(true).read(true).write(true).truncate(true).open(&path).unwrap();
        f.set_len(size as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Ctl { path, raw: p as *mut Raw }
    }
    pub fn raw(&self) -> &Raw {
        unsafe { &*self.raw }
    }
    /// Act at the `k`-th operation from now (1-based).
    pub fn arm(&self, k: i64, action: i64) {
        let r = self.raw();
        r.held.store(0, SeqCst);
        r.release.store(0, SeqCst);
        r.fired.store(0, SeqCst);
        r.action.store(action, SeqCst);
        r.fire_at.store(r.ops.load(SeqCst) + k, SeqCst);
    }
    pub fn ops(&self) -> i64 {
        self.raw().ops.load(SeqCst)
    }
    pub fn held(&self) -> bool {
        self.raw().held.load(SeqCst) != 0
    }
    pub fn release(&self) {
        self.raw().release.store(1, SeqCst);
    }
    pub fn fired(&self) -> bool {
        self.raw().fired.load(SeqCst) != 0
    }
    /// attempts to change something outside of the scratch directory: how many, and the first path
    pub fn foreign(&self) -> (i64, String) {
        let p = unsafe { std::ptr::read_volatile(&self.raw().foreign_path) };
        let n = p.iter().position(|b| *b == 0).unwrap_or(p.len());
        (self.raw().foreign.load(SeqCst), String::from_utf8_lossy(&p[..n]).into_owned())
    }
    pub fn log(&self, from: i64) -> String {
        let n = self.ops().min(64 * 256);
        (from.min(n)..n).map(|i| unsafe { std::ptr::read_volatile(&self.raw().log[i as usize]) } as char).collect()
    }
}

impl Drop for Ctl {
    fn drop(&mut self) {
        self.release();
        unsafe { libc::munmap(self.raw as *mut _, std::mem::size_of::<Raw>()) };
    }
}
