//! Vectors in an arbitrary state, and what can be observed of them.
use crate::probe::*;
use planus::{errors::ErrorKind, *};

/// What an element read from a vector is identified by
pub type Id = (u8, usize);

pub trait Elem {
    fn id(self) -> Id;
}
impl<const S: usize> Elem for El<S> {
    fn id(self) -> Id {
        (0, self.pos)
    }
}
impl Elem for Result<Un> {
    fn id(self) -> Id {
        match self {
            Ok(u) => (u.tag, u.pos),
            // Errors name the tag; their location is the slice they were read from
            Err(e) => match e.error_kind {
                ErrorKind::UnknownUnionTag { tag } => (tag, 0),
                _ => panic!("not the error of the element"),
            },
        }
    }
}

pub type V = Vector<'static, El<8>>;
pub type U = UnionVector<'static, Un>;

/// Every vector a reader can get hold of: the invariant of the type only relates the length to
/// the bytes that are left, and `from_buffer` reaches all of these states (slices included).
pub fn any_v() -> V {
    let buffer = any_buffer();
    let v = <V as TableRead>::from_buffer(buffer, any_offset(buffer));
    kani::assume(v.is_ok());
    v.ok().unwrap()
}
pub fn any_u() -> U {
    let buffer = any_buffer();
    let v = <U as TableReadUnionVector>::from_buffer(buffer, any_offset(buffer), any_offset(buffer));
    kani::assume(v.is_ok());
    v.ok().unwrap()
}

/// As above, with the contents at a fixed place of a buffer of any length: where a vector is does
/// not matter to what is built from `get` and the `split` functions (c03).
pub fn fixed_v() -> V {
    let buffer = any_buffer();
    kani::assume(le32(buffer.buffer, 0) == Some(4));
    let v = <V as TableRead>::from_buffer(buffer, 0);
    kani::assume(v.is_ok());
    v.ok().unwrap()
}
static mut BYTES: &[u8] = &[0xb5, 0xc0, 0xfb, 0xcf];
pub fn fixed_u() -> U {
    let buffer = any_buffer();
    kani::assume(le32(buffer.buffer, 0) == Some(8) && le32(buffer.buffer, 4) == Some(8));
    unsafe { BYTES = buffer.buffer };
    let v = <U as TableReadUnionVector>::from_buffer(buffer, 0, 4);
    kani::assume(v.is_ok());
    v.ok().unwrap()
}
/// The longest of the small vectors
pub const SMALL: usize = 9;
/// The same vectors, bounded by their length
pub fn small_v() -> V {
    let mut data: [u8; 8 + 8 * SMALL] = [0; 8 + 8 * SMALL];
    let n: u8 = kani::any();
    kani::assume(n as usize <= SMALL);
    data[0] = 4;
    data[4] = n;
    let buffer = bounded_buffer(Box::leak(Box::new(data)));
    kani::assume(buffer.offset_from_start == 0);
    <V as TableRead>::from_buffer(buffer, 0).ok().unwrap()
}
pub fn small_u() -> U {
    let mut data: [u8; 16 + 4 * SMALL] = kani::any();
    let n: u8 = kani::any();
    kani::assume(n as usize <= SMALL);
    data[..12].copy_from_slice(&[8, 0, 0, 0, 8, 0, 0, 0, n, 0, 0, 0]);
    data[12..16].copy_from_slice(&[n, 0, 0, 0]);
    let data = Box::leak(Box::new(data));
    unsafe { BYTES = data };
    let buffer = bounded_buffer(data);
    kani::assume(buffer.offset_from_start == 0);
    <U as TableReadUnionVector>::from_buffer(buffer, 0, 4).ok().unwrap()
}
/// The elements of these vectors
pub fn fixed_id_v(i: usize) -> Id {
    (0, 8 + 8 * i)
}
pub fn fixed_id_u(i: usize) -> Id {
    let tag = unsafe { BYTES[12 + i] };
    (tag, if tag >= 200 { 0 } else { 16 + 4 * i })
}

macro_rules! fixed_part {
    ($part:ident, $id:ident, $ty:ty) => {
        /// `w` is elements `a..b` of a fixed vector of length `n`
        pub fn $part(w: $ty, n: usize, a: usize, b: usize) {
            assert!(a <= b && b <= n, "a part of the vector");
            assert!(w.len() == b - a, "the length of the part");
            let j: usize = kani::any();
            kani::assume(j < b - a);
            assert!(w.get(j).map(Elem::id) == Some($id(a + j)), "the elements of the part");
        }
    };
}
fixed_part!(fixed_part_v, fixed_id_v, V);
fixed_part!(fixed_part_u, fixed_id_u, U);

macro_rules! view {
    ($view:ident, $part:ident, $ty:ty) => {
        /// An element by its number
        pub fn $view(v: $ty, i: usize) -> Option<Id> {
            v.get(i).map(Elem::id)
        }
        /// `w` is `v[a..b]`
        pub fn $part(w: $ty, v: $ty, a: usize, b: usize) {
            assert!(a <= b && b <= v.len(), "a part of the vector");
            assert!(w.len() == b - a, "the length of the part");
            let j: usize = kani::any();
            if j < b - a {
                assert!($view(w, j) == $view(v, a + j), "the elements of the part");
            } else {
                assert!(w.get(j).is_none());
            }
        }
    };
}
view!(view_v, part_v, V);
view!(view_u, part_u, U);
