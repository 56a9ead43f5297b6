//! Models of library functions whose bodies the compiler does not ship as MIR.
use crate::verif;
use std::sync::{Once, OnceState};

pub fn fmt_format(_a: std::fmt::Arguments<'_>) -> String {
    String::new()
}
pub fn once_call_once<C: FnOnce()>(once: &Once, f: C) {
    let p = once as *const Once as *const u32;
    if verif::once_enter(p) {
        f();
        verif::once_exit(p);
    }
}
pub fn once_call_once_force<C: FnOnce(&OnceState)>(once: &Once, f: C) {
    let p = once as *const Once as *const u32;
    if verif::once_enter(p) {
        let st = std::mem::MaybeUninit::<OnceState>::uninit();
        f(unsafe { &*st.as_ptr() });
        verif::once_exit(p);
    }
}
pub fn once_is_completed(once: &Once) -> bool {
    let p = once as *const Once as *const u32;
    unsafe { *p == 0 }
}
/// nothing is known about the process environment, unless the obligation says so
pub fn env_var<K: AsRef<std::ffi::OsStr>>(_k: K) -> Result<String, std::env::VarError> {
    if verif::config("environment") == 0 {
        verif::effect("reads the process environment");
    }
    match verif::config("environment") {
        1 => Ok(String::from("serial")),
        2 => Ok(String::from("parallel")),
        3 => Ok(String::from("other")),
        4 => Err(std::env::VarError::NotPresent),
        _ => {
            if verif::any_bool("environment variable set") {
                Ok(String::new())
            } else {
                Err(std::env::VarError::NotPresent)
            }
        }
    }
}
pub fn env_var_os<K: AsRef<std::ffi::OsStr>>(_k: K) -> Option<std::ffi::OsString> {
    verif::effect("reads the process environment");
    None
}
pub fn available_parallelism() -> std::io::Result<std::num::NonZeroUsize> {
    let n = verif::config("parallelism");
    if n == 0 {
        verif::effect("reads the number of processors");
    }
    if n == 1000 {
        return Err(std::io::Error::from(std::io::ErrorKind::Unsupported));
    }
    Ok(unsafe { std::num::NonZeroUsize::new_unchecked(if n == 0 { 4 } else { n }) })
}
/// time stands still
pub fn instant_now() -> std::time::Instant {
    unsafe { std::mem::transmute([0u64; 2]) }
}
pub fn instant_elapsed(_i: &std::time::Instant) -> std::time::Duration {
    std::time::Duration::from_secs(0)
}
