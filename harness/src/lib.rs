//! The same dispatcher as a C library: one process then holds the native and the foreign interface.
#[path = "main.rs"]
#[allow(dead_code)]
mod app;

use app::{dispatch, registry, Env};
use std::sync::Mutex;

static ENV: Mutex<Option<Env>> = Mutex::new(None);

/// Executes one command line of the harness protocol; the answer is copied to `out`.
///
/// # Safety
/// `inp` must be a C string and `out` have room for `cap` bytes.
#[no_mangle]
pub unsafe extern "C" fn vh_cmd(inp: *const std::ffi::c_char, out: *mut u8, cap: usize) -> usize {
    let line = std::ffi::CStr::from_ptr(inp).to_str().unwrap().to_string();
    let mut g = ENV.lock().unwrap();
    let env = g.get_or_insert_with(Env::default);
    let ans = dispatch(&registry::registry(), env, &line);
    let n = ans.len().min(cap);
    std::ptr::copy_nonoverlapping(ans.as_ptr(), out, n);
    n
}
