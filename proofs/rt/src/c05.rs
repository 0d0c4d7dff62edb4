//! The buffer of a builder only grows at its front, and nothing in it changes.
use planus::{
    verif_hooks::{prepare_write, set_backvec, write, BackVec},
    Builder,
};

#[cfg(not(feature = "small"))]
const MAX: usize = 1 << 40;
#[cfg(feature = "small")]
const MAX: usize = 24;

fn size() -> usize {
    let n: usize = kani::any();
    kani::assume(n <= MAX);
    n
}

/// A buffer in any state: any capacity, any part of it in use, any contents.
fn any_backvec() -> BackVec {
    let (capacity, len) = (size(), size());
    kani::assume(len <= if capacity < 16 { 16 } else { capacity });
    let mut v = BackVec::with_capacity(capacity);
    assert!(v.len() == 0 && v.as_slice().is_empty(), "a new buffer is empty");
    // The contents stay undefined, which is to say arbitrary
    unsafe { v.extend_write(len, |_| {}) };
    assert!(v.len() == len, "the length counts the bytes");
    v
}

fn any_bytes() -> &'static [u8] {
    #[cfg(feature = "small")]
    {
        let data: [u8; MAX] = kani::any();
        &Box::leak(Box::new(data))[..size()]
    }
    #[cfg(not(feature = "small"))]
    unsafe {
        let n = size();
        if n == 0 {
            return &[];
        }
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n, 1));
        core::slice::from_raw_parts(p, n)
    }
}

/// One arbitrary byte of the contents, identified by its distance from the end
struct Witness {
    len: usize,
    at: usize,
    byte: u8,
}
fn witness(b: &[u8]) -> Option<Witness> {
    let at: usize = kani::any();
    if at >= b.len() {
        return None;
    }
    Some(Witness { len: b.len(), at: b.len() - at, byte: b[at] })
}
/// The same byte is still there, and `added` bytes are in front of the old contents
fn unchanged(w: Option<Witness>, before: usize, added: usize, b: &[u8]) {
    assert!(b.len() == before + added, "exactly the given number of bytes is added");
    if let Some(w) = w {
        assert!(w.len == before && b[b.len() - w.at] == w.byte, "earlier bytes stay as they are");
    }
}

#[kani::proof]
#[kani::unwind(2)]
fn extend_from_slice() {
    let mut v = any_backvec();
    let (before, w) = (v.len(), witness(v.as_slice()));
    let new = any_bytes();
    v.extend_from_slice(new);
    unchanged(w, before, new.len(), v.as_slice());
    let i: usize = kani::any();
    if i < new.len() {
        assert!(v.as_slice()[i] == new[i], "the new bytes are in front");
    }
    kani::cover!(before > 16 && new.len() > before, "the buffer grows");
}

#[kani::proof]
#[kani::unwind(2)]
fn extend_with_zeros() {
    let mut v = any_backvec();
    let (before, w) = (v.len(), witness(v.as_slice()));
    let n = size();
    v.extend_with_zeros(n);
    unchanged(w, before, n, v.as_slice());
    let i: usize = kani::any();
    if i < n {
        assert!(v.as_slice()[i] == 0, "zeros are in front");
    }
}

#[kani::proof]
#[kani::unwind(2)]
fn extend_write() {
    let mut v = any_backvec();
    let (before, w) = (v.len(), witness(v.as_slice()));
    let (n, i, x): (usize, usize, u8) = (size(), kani::any(), kani::any());
    unsafe {
        v.extend_write(n, |bytes| {
            assert!(bytes.len() == n, "exactly the bytes asked for");
            if i < n {
                bytes[i].write(x);
            }
        })
    };
    unchanged(w, before, n, v.as_slice());
    if i < n {
        assert!(v.as_slice()[i] == x, "the new bytes are in front");
    }
}

#[kani::proof]
#[kani::unwind(2)]
fn reserve() {
    let mut v = any_backvec();
    let (before, w) = (v.len(), witness(v.as_slice()));
    v.reserve(size());
    unchanged(w, before, 0, v.as_slice());
}

#[kani::proof]
#[kani::unwind(2)]
fn clear() {
    let mut v = any_backvec();
    v.clear();
    assert!(v.len() == 0 && v.as_slice().is_empty(), "a cleared buffer is empty");
    // And usable
    let n = size();
    let (i, x): (usize, u8) = kani::any();
    unsafe { v.extend_write(n, |b| if i < n { b[i].write(x); }) };
    assert!(v.len() == n && (i >= n || v.as_slice()[i] == x));
}

/// The builder's buffer is only accessible through the functions above. That growing keeps the
/// contents is the contract proved by `reserve`; the proofs about the builder are about buffers
/// with enough capacity.
#[cfg(feature = "stub_grow")]
fn grow(_v: &mut BackVec, _c: usize) {
    kani::assume(false);
}

/// The same through the builder: padding is zero, and goes between the earlier bytes and the new.
fn any_builder() -> Builder {
    let mut b = Builder::new();
    set_backvec(&mut b, any_backvec());
    // Any pending promise
    let (s, m) = (kani::any(), mask());
    kani::assume(s <= m);
    unsafe {
        b.write_with(0, m, |_, _| {});
        b.write_with(s, 0, |_, _| {});
    }
    b
}
fn mask() -> usize {
    let k: u32 = kani::any();
    #[cfg(feature = "small")]
    kani::assume(k <= 4);
    kani::assume(k <= 31);
    (1usize << k) - 1
}

/// What a write of `n` bytes at the alignment `m` must have done
fn written(b: &Builder, before: usize, w: Option<Witness>, n: usize, m: usize) -> usize {
    assert!(b.len() >= before + n);
    let padding = b.len() - before - n;
    assert!(padding <= m, "less padding than the alignment");
    unchanged(w, before, n + padding, b.as_slice());
    let i: usize = kani::any();
    if i < padding {
        assert!(b.as_slice()[n + i] == 0, "padding is zero");
    }
    padding
}

#[kani::proof]
#[kani::unwind(5)]
#[cfg_attr(feature = "stub_grow", kani::stub(planus::verif_hooks::BackVec::grow, grow))]
fn builder_write_with() {
    let mut b = any_builder();
    let (before, w) = (b.len(), witness(b.as_slice()));
    let (n, m) = (size(), mask());
    let (i, x): (usize, u8) = kani::any();
    let mut offset = 0;
    unsafe {
        b.write_with(n, m, |o, bytes| {
            offset = o;
            assert!(bytes.len() == n);
            if i < n {
                bytes[i].write(x);
            }
        })
    };
    written(&b, before, w, n, m);
    if i < n {
        assert!(b.as_slice()[i] == x, "the new bytes are in front");
    }
    assert!(offset == b.len() as u32 && offset == offset_of(&b), "the offset is the position of the new bytes");
}
fn offset_of(b: &Builder) -> u32 {
    use planus::WriteAsPrimitive;
    // An offset is written as the distance from where it is written
    let mut out = [core::mem::MaybeUninit::new(0u8); 4];
    let o: planus::Offset<()> = b.current_offset();
    WriteAsPrimitive::<planus::Offset<()>>::write(&o, planus::Cursor::new(&mut out), u32::MAX);
    let out: [u8; 4] = unsafe { core::mem::transmute(out) };
    u32::MAX - u32::from_le_bytes(out)
}

#[kani::proof]
#[kani::unwind(2)]
#[cfg_attr(feature = "stub_grow", kani::stub(planus::verif_hooks::BackVec::grow, grow))]
fn builder_prepare_and_write() {
    let mut b = any_builder();
    let (before, w) = (b.len(), witness(b.as_slice()));
    let (new, m) = (any_bytes(), mask());
    let offset = prepare_write(&mut b, new.len(), m);
    write(&mut b, new);
    written(&b, before, w, new.len(), m);
    assert!(offset == b.len());
    let i: usize = kani::any();
    if i < new.len() {
        assert!(b.as_slice()[i] == new[i], "the new bytes are in front");
    }
}
