//! The Rust monitor behind the interface of the explorer (lib/explore.c): see lib/shim.c for the C monitor.
use r2u2_core::*;
use std::os::raw::{c_char, c_int, c_void};
static mut MON: Option<Monitor> = None;
static mut CB: Option<extern "C" fn(u32, u32, c_int)> = None;
#[allow(static_mut_refs)]
fn m() -> &'static mut Monitor { unsafe { MON.as_mut().unwrap() } }
#[no_mangle] pub extern "C" fn shim_nmon() -> c_int { 1 }
#[no_mangle] pub extern "C" fn shim_init(cb: extern "C" fn(u32, u32, c_int)) { unsafe { CB = Some(cb); MON = Some(Monitor::default()); } }
#[no_mangle] pub extern "C" fn shim_file(_m: c_int, _f: *mut c_void) {}
#[no_mangle] pub unsafe extern "C" fn shim_load(_m: c_int, spec: *const u8, len: u32) -> c_int {
    let s = std::slice::from_raw_parts(spec, len as usize);
    if LOADED { update_binary_file(s, m()) } else { MON = Some(get_monitor(s)); LOADED = true; }
    0
}
static mut LOADED: bool = false;
/// Number under which the report of overflow of every step is passed on (set through an input that does not exist).
static mut OVER: i32 = -1;
#[no_mangle] pub extern "C" fn shim_step(_m: c_int) -> c_int {
    let t = m().time_stamp;
    let ok = monitor_step(m());
    if ok == get_overflow_error(m()) { return 1; }
    unsafe { if OVER >= 0 { CB.unwrap()(OVER as u32, t, !ok as c_int); } }
    for o in get_output_buffer(m()) { unsafe { CB.unwrap()(o.spec_num, o.verdict.time, o.verdict.truth as c_int) } }
    0
}
#[no_mangle] pub extern "C" fn shim_bool(_m: c_int, i: u32, v: c_int) { load_bool_signal(m(), i as usize, v != 0) }
#[no_mangle] pub extern "C" fn shim_int(_m: c_int, i: u32, v: i32) { if i == u32::MAX { unsafe { OVER = v } } else { load_int_signal(m(), i as usize, v) } }
#[no_mangle] pub extern "C" fn shim_float(_m: c_int, i: u32, v: f64) { load_float_signal(m(), i as usize, v) }
#[no_mangle] pub unsafe extern "C" fn shim_str(_m: c_int, i: u32, v: *const c_char) { load_string_signal(m(), i as usize, std::ffi::CStr::from_ptr(v).to_str().unwrap()) }
#[no_mangle] pub extern "C" fn shim_reset(_m: c_int, kind: c_int) { if kind == 0 { m().clock_reset() } else { m().reset() } }
