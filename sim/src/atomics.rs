//! The library's atomic operations. The compiler replaces each of them (in the library only) by a
//! call to one of these functions, which makes it a point where the scheduler can switch threads:
//! between a load and a store there need not be any control-flow edge.

use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident $store:ident $exchange:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $a, _: i32) -> $t {
            crate::cov::atomic();
            (*p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const $a, v: $t, _: i32) {
            crate::cov::atomic();
            (*p).store(v, SeqCst)
        }
        atomics!(@ $t, $a, $exchange swap, $add fetch_add, $sub fetch_sub, $and fetch_and, $or fetch_or, $xor fetch_xor, $nand fetch_nand);
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const $a, c: $t, v: $t, _: i32, _: i32) -> $t {
            crate::cov::atomic();
            match (*p).compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(o) | Err(o) => o,
            }
        }
    };
    (@ $t:ty, $a:ty, $($name:ident $op:ident),*) => {
        $(
            #[no_mangle]
            pub unsafe extern "C" fn $name(p: *const $a, v: $t, _: i32) -> $t {
                crate::cov::atomic();
                (*p).$op(v, SeqCst)
            }
        )*
    };
}

atomics!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    std::sync::atomic::fence(SeqCst);
    crate::cov::atomic();
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
