//! Symbolic harnesses: compiled together with /repo's crate into one LLVM module, which the
//! engine (../engine) executes symbolically. Only the crate's public interface is used.
#![no_std]
#![allow(clippy::all)]

#[panic_handler]
fn on_panic(_: &core::panic::PanicInfo) -> ! {
    unsafe { checks::common::vp_panic() }
}

pub mod checks;
