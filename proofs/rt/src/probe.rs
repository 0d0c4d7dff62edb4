//! Symbolic inputs of unbounded size, and element types that record how they were read.
use planus::{errors::ErrorKind, *};
use std::alloc::{alloc, Layout};

/// The longest buffer of the proofs: only excludes lengths no allocation reaches.
pub const MAX_LEN: usize = 1 << 40;

/// Stand-in of the proofs' inputs when looking for a failing input to replay
#[cfg(feature = "small")]
pub fn any_bytes() -> &'static [u8] {
    let data: [u8; 48] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= data.len());
    &Box::leak(Box::new(data))[..n]
}

/// A buffer of any length and any contents.
#[cfg(not(feature = "small"))]
pub fn any_bytes() -> &'static [u8] {
    let n: usize = kani::any();
    kani::assume(n <= MAX_LEN);
    if n == 0 {
        return &[];
    }
    unsafe {
        let p = alloc(Layout::from_size_align_unchecked(n, 1));
        core::slice::from_raw_parts(p, n)
    }
}

/// Where a field of some object is: at most the largest entry of a vtable behind its start.
pub fn any_offset(b: SliceWithStartOffset<'_>) -> usize {
    let offset: usize = kani::any();
    kani::assume(offset <= b.buffer.len() + 65535);
    offset
}

// Kani 0.68 merges a static with constants of the same bytes: initial values must be unique
static mut BASE: usize = 0x1b87_3593_9e37_79b9;
static mut START: usize = 0xcc9e_2d51_85eb_ca6b;

/// A buffer of a size that is fixed by the proof
pub fn bounded_buffer(buffer: &'static [u8]) -> SliceWithStartOffset<'static> {
    let offset_from_start: usize = kani::any();
    kani::assume(offset_from_start <= MAX_LEN);
    unsafe {
        BASE = buffer.as_ptr() as usize;
        START = offset_from_start;
    }
    SliceWithStartOffset {
        buffer,
        offset_from_start,
    }
}

/// The tail of a longer buffer, starting `offset_from_start` bytes into it.
pub fn any_buffer() -> SliceWithStartOffset<'static> {
    let buffer = any_bytes();
    let offset_from_start: usize = kani::any();
    kani::assume(offset_from_start <= MAX_LEN);
    unsafe {
        BASE = buffer.as_ptr() as usize;
        START = offset_from_start;
    }
    SliceWithStartOffset {
        buffer,
        offset_from_start,
    }
}

/// Where in the `any_buffer` the slice starts. Also checks that the two ways a slice knows its
/// own position agree.
pub fn position(s: SliceWithStartOffset<'_>) -> usize {
    // c02 and c03 prove that the two agree, the proofs about iterators do without
    #[cfg(feature = "c04")]
    return unsafe { s.offset_from_start - START };
    #[cfg(not(feature = "c04"))]
    unsafe {
        let p = (s.buffer.as_ptr() as usize).wrapping_sub(BASE);
        assert!(
            s.offset_from_start == START + p,
            "the position of a slice matches its contents"
        );
        p
    }
}

/// Little endian reads of the specification.
pub fn le<const N: usize>(b: &[u8], at: u128) -> Option<[u8; N]> {
    if at + N as u128 <= b.len() as u128 {
        let at = at as usize;
        let mut out = [0; N];
        let mut i = 0;
        while i < N {
            out[i] = b[at + i];
            i += 1;
        }
        Some(out)
    } else {
        None
    }
}
pub fn le8(b: &[u8], at: u128) -> Option<u8> {
    le::<1>(b, at).map(|v| v[0])
}
pub fn le16(b: &[u8], at: u128) -> Option<u16> {
    le::<2>(b, at).map(u16::from_le_bytes)
}
pub fn le32(b: &[u8], at: u128) -> Option<u32> {
    le::<4>(b, at).map(u32::from_le_bytes)
}

/// An element of a vector: where it was read.
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct El<const S: usize> {
    pub pos: usize,
}

impl<'buf, const S: usize> VectorRead<'buf> for El<S> {
    const STRIDE: usize = S;
    unsafe fn from_buffer(buffer: SliceWithStartOffset<'buf>, offset: usize) -> Self {
        // The contract of `VectorRead::from_buffer`
        assert!(
            offset <= buffer.len() && S <= buffer.len() - offset,
            "elements are only read inside of the buffer"
        );
        El {
            pos: position(buffer) + offset,
        }
    }
}

/// An element of a vector of unions, or a union in a table.
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Un {
    pub tag: u8,
    pub pos: usize,
}

impl<'buf> TableReadUnion<'buf> for Un {
    fn from_buffer(
        buffer: SliceWithStartOffset<'buf>,
        tag: u8,
        offset: usize,
    ) -> core::result::Result<Self, ErrorKind> {
        if tag >= 200 {
            return Err(ErrorKind::UnknownUnionTag { tag });
        }
        Ok(Un {
            tag,
            pos: position(buffer) + offset,
        })
    }
}

impl<'buf> VectorReadUnion<'buf> for Un {
    const VECTOR_NAME: &'static str = "un";
}

/// A field of a table: where it was read. Fields at odd offsets fail to read.
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Fld {
    pub object: usize,
    pub offset: usize,
}

impl<'buf> TableRead<'buf> for Fld {
    fn from_buffer(
        buffer: SliceWithStartOffset<'buf>,
        offset: usize,
    ) -> core::result::Result<Self, ErrorKind> {
        if offset % 2 == 1 {
            return Err(ErrorKind::UnknownUnionTag { tag: 77 });
        }
        Ok(Fld {
            object: position(buffer),
            offset,
        })
    }
}

#[derive(Copy, Clone, PartialEq, Eq)]
pub struct FldVec {
    pub object: usize,
    pub tags: usize,
    pub values: usize,
}

impl<'buf> TableReadUnionVector<'buf> for FldVec {
    fn from_buffer(
        buffer: SliceWithStartOffset<'buf>,
        tags: usize,
        values: usize,
    ) -> core::result::Result<Self, ErrorKind> {
        if tags % 2 == 1 {
            return Err(ErrorKind::UnknownUnionTag { tag: 77 });
        }
        Ok(FldVec {
            object: position(buffer),
            tags,
            values,
        })
    }
}
