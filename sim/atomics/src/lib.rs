//! What the atomic operations of the code under test call. The repository's crates and the
//! simulator (which holds the instances of their generic code) are compiled with LLVM's pass that
//! replaces atomic operations by calls (`tools/rustc.sh`); this crate, which is not, performs them
//! after telling the simulator. Plain memory accesses are not touched.

use std::sync::atomic::Ordering::SeqCst;
use std::sync::atomic::*;

static mut POINT: fn() = nothing;
fn nothing() {}

/// Calls `f` before every atomic operation. Called once, before any other thread exists.
pub fn hook(f: fn()) {
    unsafe { POINT = f }
}
#[inline(always)]
unsafe fn point() {
    POINT()
}

#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: *const u8) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {
    compiler_fence(SeqCst)
}

macro_rules! ops {
    ($t:ty, $a:ty, $load:ident, $store:ident, $exchange:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *const $a, _: i32) -> $t { point(); (*a).load(SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *const $a, v: $t, _: i32) { point(); (*a).store(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $exchange(a: *const $a, v: $t, _: i32) -> $t { point(); (*a).swap(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $add(a: *const $a, v: $t, _: i32) -> $t { point(); (*a).fetch_add(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(a: *const $a, v: $t, _: i32) -> $t { point(); (*a).fetch_sub(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $and(a: *const $a, v: $t, _: i32) -> $t { point(); (*a).fetch_and(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $or(a: *const $a, v: $t, _: i32) -> $t { point(); (*a).fetch_or(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(a: *const $a, v: $t, _: i32) -> $t { point(); (*a).fetch_xor(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(a: *const $a, v: $t, _: i32) -> $t { point(); (*a).fetch_nand(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(a: *const $a, c: $t, v: $t, _: i32, _: i32) -> $t {
            point();
            match (*a).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x }
        }
    };
}
ops!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val);
ops!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val);
ops!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val);
ops!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val);
