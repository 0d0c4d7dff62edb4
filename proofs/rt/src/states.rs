//! A builder in an arbitrary state, with all of its contents in memory.
use planus::{verif_hooks::BackVec, Builder, Offset};

/// What the quick tier of c08 is bounded by: the positions in large buffers are those that c05 and
/// c06 prove, here it is the contents that count
const BOUNDED: bool = cfg!(all(feature = "c08", not(feature = "deep")));
// Buffers of up to 4 GB: offsets are 32 bits
#[cfg(not(feature = "small"))]
const MAX: usize = if BOUNDED { 1 << 16 } else { 1 << 30 };
#[cfg(feature = "small")]
const MAX: usize = 20;

pub fn size() -> usize {
    let n: usize = kani::any();
    kani::assume(n <= MAX);
    n
}
/// Any power of two, less one
pub fn mask() -> usize {
    let k: u32 = kani::any();
    #[cfg(feature = "small")]
    kani::assume(k <= 4);
    kani::assume(k <= if BOUNDED { 5 } else { 28 });
    (1usize << k) - 1
}

// Growing keeps the contents, and zeros are what is added: the contracts that c05 proves of the
// real functions. A proof about positions needs no more than that something is added.
pub fn grow(_v: &mut BackVec, _c: usize) {
    kani::assume(false);
}
pub fn zeros(v: &mut BackVec, n: usize) {
    unsafe { v.extend_write(n, |_| {}) }
}
macro_rules! state_proof {
    ($(#[$m:meta])* fn $name:ident() $body:block) => {
        #[kani::proof]
        #[cfg_attr(feature = "stub_grow", kani::stub(planus::verif_hooks::BackVec::grow, crate::states::grow))]
        #[cfg_attr(feature = "stub_zeros", kani::stub(planus::verif_hooks::BackVec::extend_with_zeros, crate::states::zeros))]
        $(#[$m])*
        fn $name() $body
    };
}
pub(crate) use state_proof;

/// A state is determined by its parameters: the bytes written so far, the largest alignment used,
/// and the bytes already written since it was last met
#[derive(Copy, Clone)]
pub struct State {
    pub len: usize,
    pub mask: usize,
    pub since: usize,
}
pub fn any_state() -> State {
    let s = State { len: size(), mask: mask(), since: kani::any() };
    kani::assume(s.since <= s.mask);
    s
}
pub fn builder(s: State) -> Builder {
    let mut b = Builder::with_capacity(size());
    unsafe {
        b.write_with(s.len, 0, |_, _| {});
        b.write_with(0, s.mask, |_, _| {});
        b.write_with(s.since, 0, |_, _| {});
    }
    b
}
pub fn any_id() -> Option<[u8; 4]> {
    if kani::any() { Some(kani::any()) } else { None }
}
/// The length of the buffer if the builder is finished now
pub fn finished(mut b: Builder) -> usize {
    let root: Offset<()> = b.current_offset();
    b.finish(root, any_id());
    let n = b.len();
    core::mem::forget(b);
    n
}
/// Bytes of any number and contents
pub fn any_bytes() -> &'static [u8] {
    let n = size();
    if n == 0 {
        return &[];
    }
    unsafe {
        core::slice::from_raw_parts(
            std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n, 1)),
            n,
        )
    }
}
