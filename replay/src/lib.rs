//! The harnesses of ../harness as native code: runs one of them on the concrete inputs of a
//! model, so that a violation found by the engine is confirmed against the real, compiled crate.
//! VP_INPUTS: inputs in order of their use; VP_PARAMS: job parameters.
#![allow(clippy::all)]

use std::cell::RefCell;

#[path = "../../harness/src/checks/mod.rs"]
pub mod checks;

struct S {
    inputs: Vec<u64>,
    at: usize,
    params: Vec<u32>,
}
thread_local! { static ST: RefCell<Option<S>> = RefCell::new(None); }

extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn nums<T: std::str::FromStr>(k: &str) -> Vec<T> {
    std::env::var(k)
        .unwrap_or_default()
        .split(',')
        .filter_map(|s| s.trim().parse().ok())
        .collect()
}
fn st<R>(f: impl FnOnce(&mut S) -> R) -> R {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.get_or_insert_with(|| S { inputs: nums("VP_INPUTS"), at: 0, params: nums("VP_PARAMS") });
        f(s)
    })
}
fn input() -> u64 {
    st(|s| {
        let v = s.inputs.get(s.at).copied().unwrap_or(0);
        s.at += 1;
        v
    })
}
fn text<'a>(p: *const u8, n: usize) -> std::borrow::Cow<'a, str> {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) })
}

#[no_mangle]
pub extern "C" fn vp_u8() -> u8 {
    input() as u8
}
#[no_mangle]
pub extern "C" fn vp_u16() -> u16 {
    input() as u16
}
#[no_mangle]
pub extern "C" fn vp_u32() -> u32 {
    input() as u32
}
#[no_mangle]
pub extern "C" fn vp_u64() -> u64 {
    input()
}
#[no_mangle]
pub unsafe extern "C" fn vp_any(p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = input() as u8;
    }
}
/// The last byte is followed by a page that faults
#[no_mangle]
pub unsafe extern "C" fn vp_buf(n: usize) -> *mut u8 {
    let pages = (n + 4095) / 4096 * 4096;
    let p = mmap(std::ptr::null_mut(), pages + 4096, 3, 0x22, -1, 0);
    mprotect(p.add(pages), 4096, 0);
    p.add(pages - n)
}
#[no_mangle]
pub extern "C" fn vp_choose(_n: u32) -> u32 {
    input() as u32
}
#[no_mangle]
pub extern "C" fn vp_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn vp_param(i: u32) -> u32 {
    st(|s| s.params[i as usize])
}
#[no_mangle]
pub extern "C" fn vp_assume(c: bool) {
    if !c {
        eprintln!("VP-ASSUME");
        unsafe { _exit(78) }
    }
}
#[no_mangle]
pub extern "C" fn vp_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        eprintln!("VP-ASSERT {}", text(p, n));
        unsafe { _exit(77) }
    }
}
#[no_mangle]
pub extern "C" fn vp_keep(_: *const u8) {}
#[no_mangle]
pub extern "C" fn vp_cover(_: *const u8, _: usize) {}
#[no_mangle]
pub extern "C" fn vp_note(p: *const u8, n: usize, v: u64) {
    eprintln!("VP-NOTE {} {}", text(p, n), v);
}
#[no_mangle]
pub extern "C" fn vp_panic() -> ! {
    std::process::abort()
}
