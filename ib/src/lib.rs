//! Shared by the in-process checks: calling the code under test.
pub use common::report::{Check, Fail, Info};
pub use proptest::prelude::*;
pub use serde::{Deserialize, Serialize};

pub type R<T = ()> = Result<T, Fail>;

pub fn bad<T>(m: impl Into<String>) -> R<T> {
    Err(Fail::Violation(m.into()))
}

pub fn message(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

/// Runs code under test; a panic in it breaks the property.
pub fn sut<T>(what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> R<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => bad(format!("{} panicked: {}", what(), message(&*p))),
    }
}

/// Runs code under test that has to refuse by panicking.
pub fn refuses<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

/// The code under test logs to standard output.
pub struct Mute(i32);

impl Mute {
    pub fn new() -> Mute {
        unsafe {
            let saved = libc::dup(1);
            let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(null, 1);
            libc::close(null);
            Mute(saved)
        }
    }
}

impl Drop for Mute {
    fn drop(&mut self) {
        use std::io::Write;
        std::io::stdout().flush().ok();
        unsafe {
            libc::dup2(self.0, 1);
            libc::close(self.0);
        }
    }
}

/// First what is judged on the running program, then the in-process sections.
pub fn run(id: &'static str, f: fn(&Check)) -> ! {
    // running out of memory is to end in an abort, not in the machine's trouble
    unsafe {
        let l = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
    std::panic::set_hook(Box::new(|_| {}));
    bb::main_with(&[(id, "exploration", f)])
}
