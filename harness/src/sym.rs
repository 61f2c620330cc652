//! The symbolic API: intercepted by the engine, replayed natively by csrc/sym.c.
#![allow(dead_code)]
mod raw {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u16() -> u16;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_range(lo: u64, hi: u64) -> u64;
        pub fn sym_choice(n: u64) -> u64;
        pub fn sym_concrete(v: u64) -> u64;
        pub fn sym_assume(b: bool);
        pub fn sym_assert(b: bool, p: *const u8, n: usize);
        pub fn sym_cover(p: *const u8, n: usize);
        pub fn sym_observe(p: *const u8, n: usize, v: u64);
        pub fn sym_dump(v: u64);
        pub fn vclock_set(ms: u64);
        pub fn vclock_get() -> u64;
        pub fn sym_load(path: *const u8);
        pub fn sym_end();
    }
}
pub fn u8() -> u8 { unsafe { raw::sym_u8() } }
pub fn u16() -> u16 { unsafe { raw::sym_u16() } }
pub fn u32() -> u32 { unsafe { raw::sym_u32() } }
pub fn u64() -> u64 { unsafe { raw::sym_u64() } }
pub fn bool() -> bool { range(0, 1) == 1 }
/// A symbolic value in lo..=hi.
pub fn range(lo: u64, hi: u64) -> u64 { unsafe { raw::sym_range(lo, hi) } }
/// A symbolic value below n: the solver splits it where the code under test makes a difference of it.
pub fn choice(n: u64) -> u64 { range(0, n - 1) }
/// An index or size below n, split by the solver at once.
pub fn index(n: u64) -> usize { concrete(choice(n)) as usize }
pub fn concrete(v: u64) -> u64 { unsafe { raw::sym_concrete(v) } }
pub fn assume(b: bool) { unsafe { raw::sym_assume(b) } }
pub fn check(b: bool, name: &'static str) { unsafe { raw::sym_assert(b, name.as_ptr(), name.len()) } }
pub fn cover(name: &'static str) { unsafe { raw::sym_cover(name.as_ptr(), name.len()) } }
pub fn observe(name: &'static str, v: u64) { unsafe { raw::sym_observe(name.as_ptr(), name.len(), v) } }
pub fn dump(v: u64) { unsafe { raw::sym_dump(v) } }
/// Where clocks start: in 2027, 1.5 s before the lower half of the number overflows.
pub const EPOCH: u64 = 419 * (1 << 32) + (1 << 31) - 1_500;
pub fn clock_set(ms: u64) { unsafe { raw::vclock_set(ms) } }
pub fn clock_get() -> u64 { unsafe { raw::vclock_get() } }
pub fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| u8()).collect() }
pub(crate) fn load(path: &str) {
    let p = format!("{path}\0");
    unsafe { raw::sym_load(p.as_ptr()) }
}
pub(crate) fn end() { unsafe { raw::sym_end() } }
