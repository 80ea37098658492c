//! Environment variables seen by the library. The harness defines `getenv`, which std uses; while an
//! operation runs with an answer set, every variable the process does not have is answered with it.
//! (What the library would do with a variable nobody has thought of is thereby observed.)
use std::cell::{Cell, RefCell};

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static ANSWER: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
}

/// The value of every variable that is not set (None: not set).
pub fn answer_with(v: Option<&str>) {
    ANSWER.with(|a| *a.borrow_mut() = v.map(|v| [v.as_bytes(), &[0]].concat()));
}
pub fn inside(on: bool) {
    INSIDE.with(|i| i.set(on));
}

#[cfg(not(any(miri, no_virtual_clock)))]
mod hook {
    use super::*;
    use std::ffi::CStr;
    use std::os::raw::c_char;
    extern "C" {
        static environ: *const *const c_char;
    }
    /// # Safety
    /// Called by libc users with a NUL-terminated name.
    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
        let name = CStr::from_ptr(name).to_bytes();
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            let e = CStr::from_ptr(*p).to_bytes();
            if e.len() > name.len() && e[name.len()] == b'=' && &e[..name.len()] == name {
                return (*p).add(name.len() + 1) as *mut c_char;
            }
            p = p.add(1);
        }
        if INSIDE.try_with(Cell::get).unwrap_or(false) && !name.starts_with(b"RUST_") {
            let found = ANSWER.try_with(|a| a.try_borrow().ok().and_then(|a| a.as_ref().map(|v| v.as_ptr() as *mut c_char)));
            if let Ok(Some(v)) = found {
                return v;
            }
        }
        std::ptr::null_mut()
    }
}

/// Proof that the hook is in effect.
pub fn self_test() -> Result<(), String> {
    if !crate::clock::ENABLED {
        return Ok(());
    }
    answer_with(Some("yes"));
    inside(true);
    let a = std::env::var("VMON_SELF_TEST");
    inside(false);
    let b = std::env::var("VMON_SELF_TEST");
    answer_with(None);
    if a.as_deref() == Ok("yes") && b.is_err() {
        Ok(())
    } else {
        Err(format!("the environment hook is not in effect: {a:?} {b:?}"))
    }
}
