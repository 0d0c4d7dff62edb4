//! A builder in an arbitrary reachable state whose earlier contents are not backed by memory.
//!
//! `W` bytes of real memory lie in front of `unbacked` bytes that stand for everything written
//! before: the number of those bytes, the pending alignment promise and the alignment mask are
//! symbolic, so a proof about the bytes written next holds after any history of writes.
use core::{mem::ManuallyDrop, ptr::NonNull};
use planus::{
    verif_hooks::{set_backvec, BackVec},
    Builder,
};

// Kani 0.68 merges a static with constants of the same bytes: the initial value must be unique
pub static mut UNBACKED: usize = 0x5bd1_e995_7f4a_7c15;

/// Alignments up to 2^MAX_ALIGN_LOG2
pub const MAX_ALIGN_LOG2: u32 = if cfg!(all(feature = "c08", not(feature = "deep"))) { 3 } else { 4 };

pub fn any_builder<const W: usize>(win: &mut [u8; W]) -> ManuallyDrop<Builder> {
    let mut b = Builder::with_capacity(0);
    let unbacked: usize = kani::any();
    kani::assume(unbacked <= 1 << 30);
    unsafe { UNBACKED = unbacked };
    set_backvec(&mut b, unsafe {
        BackVec::verif_window(NonNull::new_unchecked(win.as_mut_ptr()), W, unbacked)
    });
    // Two writes reach every combination of alignment mask and pending promise
    let s: usize = kani::any();
    let m: u32 = kani::any();
    kani::assume(m <= MAX_ALIGN_LOG2);
    kani::assume(s < 1 << m);
    unsafe {
        b.write_with(0, (1usize << m) - 1, |_, _| {});
        b.write_with(s, 0, |_, _| {});
    }
    ManuallyDrop::new(b)
}

/// A builder whose earlier contents end at an aligned position
pub fn any_aligned_builder<const W: usize>(win: &mut [u8; W]) -> ManuallyDrop<Builder> {
    let mut b = Builder::with_capacity(0);
    let unbacked: usize = kani::any();
    kani::assume(unbacked <= 1 << 30);
    unsafe { UNBACKED = unbacked };
    set_backvec(&mut b, unsafe {
        BackVec::verif_window(NonNull::new_unchecked(win.as_mut_ptr()), W, unbacked)
    });
    ManuallyDrop::new(b)
}

// Contracts of the buffer primitives, proved by c05 on the real code: the byte loops below
// compute what the block copies of the real functions compute.
pub fn grow(_v: &mut BackVec, _c: usize) {
    // Growing preserves the contents (c05), and the window is large enough to never need it
    kani::assert(false, "the window of the proof is too small");
    kani::assume(false);
}
pub fn extend_from_slice(v: &mut BackVec, b: &[u8]) {
    unsafe {
        v.extend_write(b.len(), |d| {
            let mut i = 0;
            while i < b.len() {
                d[i].write(b[i]);
                i += 1;
            }
        })
    }
}
pub fn extend_with_zeros(v: &mut BackVec, n: usize) {
    unsafe {
        v.extend_write(n, |d| {
            let mut i = 0;
            while i < n {
                d[i].write(0);
                i += 1;
            }
        })
    }
}
/// Only the part in front of the unbacked bytes
pub fn as_slice(v: &BackVec) -> &[u8] {
    unsafe { v.verif_front(v.len() - UNBACKED) }
}

macro_rules! window_proof {
    ($(#[$m:meta])* fn $name:ident() $body:block) => {
        #[kani::proof]
        #[cfg_attr(feature = "stub_grow", kani::stub(planus::verif_hooks::BackVec::grow, crate::window::grow))]
        #[kani::stub(planus::verif_hooks::BackVec::extend_from_slice, crate::window::extend_from_slice)]
        #[cfg_attr(feature = "stub_zeros", kani::stub(planus::verif_hooks::BackVec::extend_with_zeros, crate::window::extend_with_zeros))]
        #[kani::stub(planus::verif_hooks::BackVec::as_slice, crate::window::as_slice)]
        $(#[$m])*
        fn $name() $body
    };
}
pub(crate) use window_proof;
