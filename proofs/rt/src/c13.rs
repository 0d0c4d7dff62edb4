//! Generated readers read what the schema declares.
//!
//! The functions of `planus::table_reader::Table` are replaced by their contracts, which c02
//! proves of the real functions: a table has an arbitrary object in an arbitrary buffer, and for
//! every slot an arbitrary entry. Everything else is the generated code and the real runtime.
use crate::{gen::corpus::*, probe::*, spec::*};
use planus::{errors::ErrorKind, table_reader::Table, *};

const SLOTS: usize = 24;

/// What the contracts of a table are about
struct Ghost {
    buffer: SliceWithStartOffset<'static>,
    object: usize,
    entry: [u16; SLOTS],
    /// Of a union, if its tag is at this slot: 0 absent, 1 malformed, otherwise present
    state: [u8; SLOTS],
    tag: [u8; SLOTS],
    well_formed: bool,
}
static mut GHOST: Option<Ghost> = None;
// Kani 0.68 merges a static with constants of the same bytes: initial values must be unique
static mut OPENED: (usize, usize, usize) = (0x2545_f491_4f6c_dd1d, 0x7fb5_d329_728e_a185, 0x81da_def4_bc2d_d44d);

fn ghost() -> &'static Ghost {
    unsafe { GHOST.as_ref().unwrap() }
}
fn setup() -> &'static Ghost {
    let buffer = any_buffer();
    let object = kani::any();
    kani::assume(object <= buffer.buffer.len());
    let g = Ghost { buffer, object, entry: kani::any(), state: kani::any(), tag: kani::any(), well_formed: kani::any() };
    unsafe { GHOST = Some(g) };
    ghost()
}
/// Whether the last table opened is the one whose offset is at `offset` of the buffer
fn opened(b: SliceWithStartOffset<'_>, offset: usize) -> bool {
    unsafe { OPENED == (b.buffer.as_ptr() as usize, b.buffer.len(), offset) }
}

// The contracts
fn table_from_buffer<'buf: 'buf>(b: SliceWithStartOffset<'buf>, offset: usize) -> core::result::Result<Table<'buf>, ErrorKind> {
    unsafe { OPENED = (b.buffer.as_ptr() as usize, b.buffer.len(), offset) };
    if ghost().well_formed {
        // An opaque handle: only the contracts look at tables
        Ok(unsafe { core::mem::transmute_copy(&[8usize; 16]) })
    } else {
        Err(ErrorKind::InvalidOffset)
    }
}
fn error(kind: ErrorKind, t: &'static str, m: &'static str) -> planus::Error {
    kind.with_error_location(t, m, ghost().object)
}
fn access<'buf: 'buf, T: TableRead<'buf>>(_: &Table<'buf>, i: usize, t: &'static str, m: &'static str) -> planus::Result<Option<T>> {
    let g = ghost();
    if i >= SLOTS || g.entry[i] == 0 {
        return Ok(None);
    }
    match T::from_buffer(g.buffer, g.object + g.entry[i] as usize) {
        Ok(v) => Ok(Some(v)),
        Err(e) => Err(error(e, t, m)),
    }
}
fn access_required<'buf: 'buf, T: TableRead<'buf>>(s: &Table<'buf>, i: usize, t: &'static str, m: &'static str) -> planus::Result<T> {
    match access(s, i, t, m) {
        Ok(Some(v)) => Ok(v),
        Ok(None) => Err(error(ErrorKind::MissingRequired, t, m)),
        Err(e) => Err(e),
    }
}
fn access_union<'buf: 'buf, T: TableReadUnion<'buf>>(_: &Table<'buf>, i: usize, t: &'static str, m: &'static str) -> planus::Result<Option<T>> {
    let g = ghost();
    if i + 1 >= SLOTS || g.state[i] == 0 {
        return Ok(None);
    }
    if g.state[i] == 1 {
        return Err(error(ErrorKind::InvalidOffset, t, m));
    }
    match T::from_buffer(g.buffer, g.tag[i], g.object + g.entry[i + 1] as usize) {
        Ok(v) => Ok(Some(v)),
        Err(e) => Err(error(e, t, m)),
    }
}
fn access_union_required<'buf: 'buf, T: TableReadUnion<'buf>>(s: &Table<'buf>, i: usize, t: &'static str, m: &'static str) -> planus::Result<T> {
    match access_union(s, i, t, m) {
        Ok(Some(v)) => Ok(v),
        Ok(None) => Err(error(ErrorKind::MissingRequired, t, m)),
        Err(e) => Err(e),
    }
}
fn access_union_vector<'buf: 'buf, T: TableReadUnionVector<'buf>>(_: &Table<'buf>, i: usize, t: &'static str, m: &'static str) -> planus::Result<Option<T>> {
    let g = ghost();
    if i + 1 >= SLOTS || g.state[i] == 0 {
        return Ok(None);
    }
    if g.state[i] == 1 {
        return Err(error(ErrorKind::MissingRequired, t, m));
    }
    match T::from_buffer(g.buffer, g.object + g.entry[i] as usize, g.object + g.entry[i + 1] as usize) {
        Ok(v) => Ok(Some(v)),
        Err(e) => Err(error(e, t, m)),
    }
}
fn access_union_vector_required<'buf: 'buf, T: TableReadUnionVector<'buf>>(s: &Table<'buf>, i: usize, t: &'static str, m: &'static str) -> planus::Result<T> {
    match access_union_vector(s, i, t, m) {
        Ok(Some(v)) => Ok(v),
        Ok(None) => Err(error(ErrorKind::MissingRequired, t, m)),
        Err(e) => Err(e),
    }
}
/// Validation is the standard library's
fn utf8(b: &[u8]) -> core::result::Result<&str, core::str::Utf8Error> {
    Ok(unsafe { core::str::from_utf8_unchecked(b) })
}

macro_rules! proof {
    ($(#[$m:meta])* fn $name:ident() $body:block) => {
        #[kani::proof]
        #[kani::unwind(42)]
        #[kani::stub(planus::table_reader::Table::from_buffer, crate::c13::table_from_buffer)]
        #[kani::stub(planus::table_reader::Table::access, crate::c13::access)]
        #[kani::stub(planus::table_reader::Table::access_required, crate::c13::access_required)]
        #[kani::stub(planus::table_reader::Table::access_union, crate::c13::access_union)]
        #[kani::stub(planus::table_reader::Table::access_union_required, crate::c13::access_union_required)]
        #[kani::stub(planus::table_reader::Table::access_union_vector, crate::c13::access_union_vector)]
        #[kani::stub(planus::table_reader::Table::access_union_vector_required, crate::c13::access_union_vector_required)]
        #[kani::stub(core::str::from_utf8, crate::c13::utf8)]
        $(#[$m])*
        fn $name() $body
    };
}

/// Open some table, the usual way
fn open_any<T: TableRead<'static>>(g: &'static Ghost) -> Option<T> {
    let at: usize = kani::any();
    let t = T::from_buffer(g.buffer, at);
    assert!(opened(g.buffer, at), "the table is the one asked for");
    assert!(t.is_ok() == g.well_formed, "a table can be opened if it is well formed");
    t.ok()
}
/// The little endian bytes of a field that is present
fn field<const N: usize>(g: &Ghost, slot: usize) -> Option<[u8; N]> {
    le(g.buffer.buffer, g.object as u128 + g.entry[slot] as u128)
}

/// A field of a plain type: its default if absent, the value if it is in the buffer and valid
macro_rules! plain {
    ($name:ident, $table:ty, $f:ident, $slot:expr, $n:expr, $absent:expr, $decode:expr, $same:expr) => {
        proof! {
        fn $name() {
            let g = setup();
            let Some(t) = open_any::<$table>(g) else { return };
            let got = t.$f();
            kani::cover!(got.is_ok());
            if g.entry[$slot] == 0 {
                let Ok(v) = got else { panic!("an absent field has its default") };
                let same: fn(_, _) -> bool = $same;
                assert!(same(v, $absent), "an absent field has its default");
            } else {
                match (got, field::<$n>(g, $slot).and_then($decode)) {
                    (Ok(v), Some(w)) => {
                        let same: fn(_, _) -> bool = $same;
                        assert!(same(v, w), "the value of the field")
                    }
                    (Err(_), None) => (),
                    _ => panic!("a field reads exactly if it is in the buffer and valid"),
                }
            }
        }
        }
    };
}
macro_rules! scalar {
    ($name:ident, $f:ident, $slot:expr, $ty:ident, $n:expr, $default:expr) => {
        plain!($name, ScalarsRef<'static>, $f, $slot, $n, $default, |b| Some($ty::from_le_bytes(b)), |a, b| a == b);
    };
}
macro_rules! optional {
    ($name:ident, $f:ident, $slot:expr, $ty:ident, $n:expr) => {
        plain!($name, OptionalsRef<'static>, $f, $slot, $n, None, |b| Some(Some($ty::from_le_bytes(b))), |a, b| a == b);
    };
}

// The enums of the schema
fn small(b: [u8; 1]) -> Option<Small> {
    Some(match b[0] as i8 {
        -5 => Small::Neg,
        0 => Small::Zero,
        1 => Small::One,
        100 => Small::Big,
        101 => Small::Last,
        _ => return None,
    })
}
fn wide(b: [u8; 8]) -> Option<Wide> {
    Some(match u64::from_le_bytes(b) {
        1 => Wide::A,
        0x8000000000000000 => Wide::B,
        0x8000000000000001 => Wide::C,
        _ => return None,
    })
}
fn flags(b: [u8; 2]) -> Option<Flags> {
    Some(match u16::from_le_bytes(b) {
        1 => Flags::Red,
        2 => Flags::Green,
        256 => Flags::Blue,
        _ => return None,
    })
}
macro_rules! enums {
    ($name:ident, $e:ident, $ty:ident, $spec:ident, $n:expr) => {
        proof! {
        fn $name() {
            let x: $ty = kani::any();
            match ($e::try_from(x), $spec(x.to_le_bytes())) {
                (Ok(a), Some(b)) => assert!(a == b && <$ty>::from(a) == x && a as $ty == x),
                (Err(e), None) => assert!(e.tag == x as i128, "the error names the tag"),
                _ => panic!("exactly the declared values are valid"),
            }
            let i: usize = kani::any();
            if i < $n {
                assert!($spec(($e::ENUM_VALUES[i] as $ty).to_le_bytes()) == Some($e::ENUM_VALUES[i]));
                assert!(i == 0 || ($e::ENUM_VALUES[i - 1] as $ty) < $e::ENUM_VALUES[i] as $ty);
            }
            assert!($e::ENUM_VALUES.len() == $n);
            // As an element of a vector
            let g = setup();
            let at: usize = kani::any();
            const N: usize = core::mem::size_of::<$ty>();
            assert!(<$e as VectorReadInner>::STRIDE == N);
            if at <= g.buffer.buffer.len() && N <= g.buffer.buffer.len() - at {
                let got = unsafe { <$e as VectorReadInner>::from_buffer(g.buffer, at) };
                assert!(got.ok() == le::<N>(g.buffer.buffer, at as u128).and_then($spec), "an element of a vector");
            }
        }
        }
    };
}
mod enums {
    use super::*;
    enums!(small_, Small, i8, small, 5);
    enums!(wide_, Wide, u64, wide, 3);
    enums!(flags_, Flags, u16, flags, 3);
}

mod scalars {
    use super::*;
    plain!(b, ScalarsRef<'static>, b, 0, 1, false, |b: [u8; 1]| Some(b[0] != 0), |a, b| a == b);
    plain!(bt, ScalarsRef<'static>, bt, 1, 1, true, |b: [u8; 1]| Some(b[0] != 0), |a, b| a == b);
    scalar!(i8_, i8, 2, i8, 1, -128);
    scalar!(u8_, u8, 3, u8, 1, 255);
    scalar!(i16_, i16, 4, i16, 2, -300);
    scalar!(u16_, u16, 5, u16, 2, 65535);
    scalar!(i32_, i32, 6, i32, 4, i32::MIN);
    scalar!(u32_, u32, 7, u32, 4, u32::MAX);
    scalar!(i64_, i64, 8, i64, 8, i64::MIN);
    scalar!(u64_, u64, 9, u64, 8, u64::MAX);
    plain!(f32_, ScalarsRef<'static>, f32, 10, 4, 1.5, |b| Some(f32::from_le_bytes(b)), |a: f32, b: f32| a.to_bits() == b.to_bits());
    plain!(f64_, ScalarsRef<'static>, f64, 11, 8, -0.25, |b| Some(f64::from_le_bytes(b)), |a: f64, b: f64| a.to_bits() == b.to_bits());
    plain!(e, ScalarsRef<'static>, e, 12, 1, Small::Big, small, |a, b| a == b);
    plain!(w, ScalarsRef<'static>, w, 13, 8, Wide::C, wide, |a, b| a == b);
    plain!(fl, ScalarsRef<'static>, fl, 14, 2, Flags::Blue, flags, |a, b| a == b);
}
mod optionals {
    use super::*;
    plain!(b, OptionalsRef<'static>, b, 0, 1, None, |b: [u8; 1]| Some(Some(b[0] != 0)), |a, b| a == b);
    optional!(u8_, u8, 1, u8, 1);
    optional!(i16_, i16, 2, i16, 2);
    optional!(u32_, u32, 3, u32, 4);
    optional!(i64_, i64, 4, i64, 8);
    plain!(f32_, OptionalsRef<'static>, f32, 5, 4, None, |b| Some(Some(f32::from_le_bytes(b))), |a: Option<f32>, b: Option<f32>| a.map(f32::to_bits) == b.map(f32::to_bits));
    plain!(f64_, OptionalsRef<'static>, f64, 6, 8, None, |b| Some(Some(f64::from_le_bytes(b))), |a: Option<f64>, b: Option<f64>| a.map(f64::to_bits) == b.map(f64::to_bits));
    plain!(e, OptionalsRef<'static>, e, 7, 1, None, |b| small(b).map(Some), |a, b| a == b);
    plain!(ids_a, IdsRef<'static>, a, 0, 4, 1, |b| Some(u32::from_le_bytes(b)), |a, b| a == b);
    plain!(ids_b, IdsRef<'static>, b, 1, 1, 2, |b| Some(u8::from_le_bytes(b)), |a, b| a == b);
    plain!(ids_c, IdsRef<'static>, c, 4, 2, 3, |b| Some(u16::from_le_bytes(b)), |a, b| a == b);
    plain!(aligned_a, AlignedRef<'static>, a, 0, 1, 0, |b| Some(u8::from_le_bytes(b)), |a, b| a == b);
    plain!(aligned_b, AlignedRef<'static>, b, 1, 4, 0, |b| Some(u32::from_le_bytes(b)), |a, b| a == b);
    plain!(child_id, ChildRef<'static>, id, 0, 4, -7, |b| Some(i32::from_le_bytes(b)), |a, b| a == b);
}

mod structs {
    use super::*;
    /// The structs at a position of the buffer
    pub fn is_inner(s: InnerRef<'_>, b: &[u8], at: usize) -> bool {
        let at = at as u128;
        s.a() == le8(b, at).unwrap() && s.b() == le32(b, at + 4).unwrap() && s.c() == le16(b, at + 8).unwrap() as i16
    }
    pub fn is_outer(s: OuterRef<'_>, b: &[u8], at: usize) -> bool {
        s.x() == le8(b, at as u128).unwrap() as i8
            && is_inner(s.y(), b, at + 4)
            && s.e().ok() == le(b, at as u128 + 16).and_then(small)
            && s.z().to_bits() == u64::from_le_bytes(le(b, at as u128 + 24).unwrap())
            && s.f().ok() == le(b, at as u128 + 32).and_then(flags)
    }
    pub fn fits(g: &Ghost, at: usize, n: usize) -> bool {
        at <= g.buffer.buffer.len() && n <= g.buffer.buffer.len() - at
    }
    proof! {
    fn inner() {
        let g = setup();
        let at = any_offset(g.buffer);
        match <InnerRef as TableRead>::from_buffer(g.buffer, at) {
            Ok(s) => {
                assert!(fits(g, at, 12) && is_inner(s, g.buffer.buffer, at));
                let owned = Inner::from(s);
                assert!(owned.a == s.a() && owned.b == s.b() && owned.c == s.c());
            }
            Err(_) => assert!(!fits(g, at, 12)),
        }
    }
    }
    proof! {
    fn outer() {
        let g = setup();
        let at = any_offset(g.buffer);
        match <OuterRef as TableRead>::from_buffer(g.buffer, at) {
            Ok(s) => assert!(fits(g, at, 40) && is_outer(s, g.buffer.buffer, at)),
            Err(_) => assert!(!fits(g, at, 40)),
        }
    }
    }
    proof! {
    fn outer_owned() {
        let data: [u8; 40] = kani::any();
        let buffer = bounded_buffer(Box::leak(Box::new(data)));
        let Ok(s) = <OuterRef as TableRead>::from_buffer(buffer, 0) else { panic!() };
        match (Outer::try_from(s), s.e(), s.f()) {
            (Ok(o), Ok(e), Ok(f)) => assert!(
                o.x == s.x() && o.y == Inner::from(s.y()) && o.e == e && o.z.to_bits() == s.z().to_bits() && o.f == f
            ),
            (Err(_), Err(_), _) | (Err(_), _, Err(_)) => (),
            _ => panic!("a struct is converted exactly if its enums are valid"),
        }
    }
    }
    proof! {
    fn elements() {
        let g = setup();
        let at = any_offset(g.buffer);
        assert!(<InnerRef as VectorRead>::STRIDE == 12 && <OuterRef as VectorRead>::STRIDE == 40 && <ByteRef as VectorRead>::STRIDE == 4);
        if fits(g, at, 12) {
            assert!(is_inner(unsafe { <InnerRef as VectorRead>::from_buffer(g.buffer, at) }, g.buffer.buffer, at));
        }
        if fits(g, at, 4) {
            assert!(unsafe { <ByteRef as VectorRead>::from_buffer(g.buffer, at) }.v() == g.buffer.buffer[at]);
        }
    }
    }
    proof! {
    fn element_outer() {
        let g = setup();
        let at = any_offset(g.buffer);
        if fits(g, at, 40) {
            assert!(is_outer(unsafe { <OuterRef as VectorRead>::from_buffer(g.buffer, at) }, g.buffer.buffer, at));
        }
    }
    }
    macro_rules! field {
        ($name:ident, $table:ty, $f:ident, $slot:expr, $n:expr, $is:expr) => {
            proof! {
            fn $name() {
                let g = setup();
                let Some(t) = open_any::<$table>(g) else { return };
                let at = g.object + g.entry[$slot] as usize;
                match t.$f() {
                    Ok(None) => assert!(g.entry[$slot] == 0),
                    Ok(Some(s)) => assert!(g.entry[$slot] != 0 && fits(g, at, $n) && $is(s, g.buffer.buffer, at)),
                    Err(_) => assert!(g.entry[$slot] != 0 && !fits(g, at, $n)),
                }
            }
            }
        };
    }
    field!(optional_inner, OptionalsRef, s, 8, 12, is_inner);
    field!(optional_outer, OptionalsRef, o, 9, 40, |s: OuterRef, b: &[u8], at: usize| s.x() == b[at] as i8);
    field!(aligned_byte, AlignedRef, by, 2, 4, |s: ByteRef, b: &[u8], at: usize| s.v() == b[at]);
    proof! {
    fn required_inner() {
        let g = setup();
        let Some(t) = open_any::<OptionalsRef>(g) else { return };
        let at = g.object + g.entry[10] as usize;
        match t.rs() {
            Ok(s) => assert!(g.entry[10] != 0 && fits(g, at, 12) && is_inner(s, g.buffer.buffer, at)),
            Err(_) => assert!(g.entry[10] == 0 || !fits(g, at, 12)),
        }
    }
    }
}

mod offsets {
    use super::structs::*;
    use super::*;
    /// The string whose offset is at a position of the buffer
    fn string(g: &Ghost, at: usize) -> Option<(usize, usize)> {
        prefixed(g.buffer.buffer, at).filter(|(p, n)| p + n <= g.buffer.buffer.len())
    }
    fn is_string(g: &Ghost, s: &str, at: usize) -> bool {
        match string(g, at) {
            Some((p, n)) => s.len() == n && s.as_ptr() as usize == g.buffer.buffer.as_ptr() as usize + p,
            None => false,
        }
    }
    macro_rules! string {
        ($name:ident, $table:ty, $f:ident, $slot:expr, $get:expr, $absent:expr) => {
            proof! {
            fn $name() {
                let g = setup();
                let Some(t) = open_any::<$table>(g) else { return };
                let at = g.object + g.entry[$slot] as usize;
                let get: fn(&$table) -> Result<Option<&'static str>> = $get;
                let got = get(&t);
                if g.entry[$slot] == 0 {
                    let absent: fn(Result<Option<&'static str>>) -> bool = $absent;
                    assert!(absent(got), "an absent string");
                } else {
                    match got {
                        Ok(Some(s)) => assert!(is_string(g, s, at)),
                        Ok(None) => panic!("a present string"),
                        Err(_) => assert!(string(g, at).is_none()),
                    }
                }
            }
            }
        };
    }
    string!(child_name, ChildRef<'static>, name, 1, |t| t.name(), |r| matches!(r, Ok(None)));
    string!(name, RefsRef<'static>, name, 0, |t| t.name(), |r| matches!(r, Ok(None)));
    string!(rname, RefsRef<'static>, rname, 1, |t| t.rname().map(Some), |r| r.is_err());
    string!(dname, RefsRef<'static>, dname, 2, |t| t.dname().map(Some), |r| match r {
        Ok(Some(s)) => {
            let s = s.as_bytes();
            s.len() == 4 && s[0] == b'd' && s[1] == b'f' && s[2] == b'l' && s[3] == b't'
        }
        _ => false,
    });

    proof! {
    fn child() {
        let g = setup();
        let Some(t) = open_any::<RefsRef>(g) else { return };
        match t.child() {
            Ok(None) => assert!(g.entry[3] == 0),
            _ => assert!(g.entry[3] != 0 && opened(g.buffer, g.object + g.entry[3] as usize)),
        }
    }
    }
    proof! {
    fn rchild() {
        let g = setup();
        let Some(t) = open_any::<RefsRef>(g) else { return };
        match t.rchild() {
            Ok(_) => assert!(g.entry[4] != 0 && opened(g.buffer, g.object + g.entry[4] as usize)),
            Err(_) => assert!(g.entry[4] == 0),
        }
    }
    }
    /// What a union member with this tag must be
    fn is_member(g: &Ghost, u: core::result::Result<AnyRef<'static>, ErrorKind>, tag: u8, at: usize) -> bool {
        match u {
            Ok(AnyRef::Child(_)) => tag == 1 && opened(g.buffer, at),
            Ok(AnyRef::Empty(_)) => tag == 2 && opened(g.buffer, at),
            Ok(AnyRef::Text(s)) => tag == 3 && is_string(g, s, at),
            Ok(AnyRef::Out(s)) => {
                tag == 4
                    && match le32(g.buffer.buffer, at as u128) {
                        Some(o) => {
                            let at = at + o as usize;
                            fits(g, at, 40) && s.x() == g.buffer.buffer[at] as i8 && s.z().to_bits() == u64::from_le_bytes(le(g.buffer.buffer, at as u128 + 24).unwrap())
                        }
                        None => false,
                    }
            }
            Ok(AnyRef::Child2(_)) => tag == 5 && opened(g.buffer, at),
            Err(e) => match tag {
                1 | 2 | 5 => !g.well_formed && opened(g.buffer, at),
                3 => string(g, at).is_none(),
                4 => match le32(g.buffer.buffer, at as u128) {
                    Some(o) => !fits(g, at + o as usize, 40),
                    None => true,
                },
                t => matches!(e, ErrorKind::UnknownUnionTag { tag } if tag == t),
            },
        }
    }
    /// The members that are tables, which is enough to see which field was read
    fn is_table(g: &Ghost, u: core::result::Result<AnyRef<'static>, ErrorKind>, tag: u8, at: usize) -> bool {
        match (tag, u) {
            (1, Ok(AnyRef::Child(_))) | (2, Ok(AnyRef::Empty(_))) | (5, Ok(AnyRef::Child2(_))) => opened(g.buffer, at),
            (1 | 2 | 5, Err(_)) => !g.well_formed && opened(g.buffer, at),
            (3, Ok(AnyRef::Text(_)) | Err(_)) | (4, Ok(AnyRef::Out(_)) | Err(_)) => true,
            (t, Err(e)) => matches!(e, ErrorKind::UnknownUnionTag { tag } if tag == t),
            _ => false,
        }
    }
    proof! {
    fn members() {
        let g = setup();
        let (tag, at) = (kani::any(), any_offset(g.buffer));
        kani::assume(tag != 3 && tag != 4);
        let u = <AnyRef as TableReadUnion>::from_buffer(g.buffer, tag, at);
        assert!(is_member(g, u, tag, at));
    }
    }
    proof! {
    fn member_text() {
        let g = setup();
        let at = any_offset(g.buffer);
        let u = <AnyRef as TableReadUnion>::from_buffer(g.buffer, 3, at);
        kani::cover!(matches!(u, Ok(AnyRef::Text(_))));
        assert!(is_member(g, u, 3, at));
    }
    }
    proof! {
    fn member_out() {
        let g = setup();
        let at = any_offset(g.buffer);
        let u = <AnyRef as TableReadUnion>::from_buffer(g.buffer, 4, at);
        kani::cover!(matches!(u, Ok(AnyRef::Out(_))));
        assert!(is_member(g, u, 4, at));
    }
    }
    macro_rules! union {
        ($name:ident, $table:ty, $slot:expr, $get:expr, $absent:expr) => {
            proof! {
            fn $name() {
                let g = setup();
                let Some(t) = open_any::<$table>(g) else { return };
                let at = g.object + g.entry[$slot + 1] as usize;
                let get: fn(&$table) -> Result<Option<AnyRef<'static>>> = $get;
                match get(&t) {
                    Ok(None) => assert!($absent && g.state[$slot] == 0),
                    Ok(Some(u)) => assert!(g.state[$slot] > 1 && is_table(g, Ok(u), g.tag[$slot], at)),
                    Err(e) => assert!(if g.state[$slot] == 0 { !$absent } else { g.state[$slot] == 1 || is_table(g, Err(e.error_kind), g.tag[$slot], at) }),
                }
            }
            }
        };
    }
    union!(u, RefsRef<'static>, 6, |t| t.u(), true);
    union!(ru, RefsRef<'static>, 8, |t| t.ru().map(Some), false);
    union!(ids_u, IdsRef<'static>, 2, |t| t.u(), true);

    macro_rules! root {
        ($name:ident, $table:ident) => {
            proof! {
            fn $name() {
                let g = setup();
                match $table::read_as_root(g.buffer.buffer) {
                    Ok(_) => assert!(g.well_formed),
                    Err(e) => assert!(!g.well_formed && e.source_location.byte_offset == 0),
                }
                assert!(opened(g.buffer, 0), "the root is at the start");
                // As an element of a vector
                assert!(<$table as VectorReadInner>::STRIDE == 4);
                let at = any_offset(g.buffer);
                let t = unsafe { <$table as VectorReadInner>::from_buffer(g.buffer, at) };
                assert!(opened(g.buffer, at) && t.is_ok() == g.well_formed);
            }
            }
        };
    }
    root!(root_child, ChildRef);
    root!(root_empty, EmptyRef);
    root!(root_scalars, ScalarsRef);
    root!(root_optionals, OptionalsRef);
    root!(root_refs, RefsRef);
    root!(root_vectors, VectorsRef);
    root!(root_ids, IdsRef);
    root!(root_aligned, AlignedRef);
}

mod vectors {
    use super::*;
    macro_rules! vector {
        ($name:ident, $f:ident, $slot:expr) => {
            proof! {
            fn $name() {
                let g = setup();
                let Some(t) = open_any::<VectorsRef>(g) else { return };
                let want = prefixed(g.buffer.buffer, g.object + g.entry[$slot] as usize);
                match t.$f() {
                    Ok(None) => assert!(g.entry[$slot] == 0),
                    Ok(Some(v)) => assert!(g.entry[$slot] != 0 && want.is_some() && v.len() == want.unwrap().1),
                    // Exactly when a vector is an error is the subject of c02
                    Err(_) => assert!(g.entry[$slot] != 0),
                }
            }
            }
        };
    }
    vector!(u8_, u8, 0);
    vector!(i8_, i8, 1);
    vector!(b, b, 2);
    vector!(i16_, i16, 3);
    vector!(u32_, u32, 4);
    vector!(f64_, f64, 5);
    vector!(e, e, 6);
    vector!(s, s, 7);
    vector!(o, o, 8);
    vector!(str_, str, 9);
    vector!(t, t, 10);
    proof! {
    fn r() {
        let g = setup();
        let Some(t) = open_any::<VectorsRef>(g) else { return };
        let want = prefixed(g.buffer.buffer, g.object + g.entry[11] as usize);
        match t.r() {
            Ok(v) => assert!(g.entry[11] != 0 && want.is_some() && v.len() == want.unwrap().1),
            Err(_) => (),
        }
    }
    }
    proof! {
    fn d() {
        let g = setup();
        let Some(t) = open_any::<VectorsRef>(g) else { return };
        let want = prefixed(g.buffer.buffer, g.object + g.entry[12] as usize);
        match t.d() {
            Ok(v) if g.entry[12] == 0 => assert!(v.is_empty()),
            Ok(v) => assert!(want.is_some() && v.len() == want.unwrap().1),
            Err(_) => assert!(g.entry[12] != 0),
        }
    }
    }
    proof! {
    fn un() {
        let g = setup();
        let Some(t) = open_any::<VectorsRef>(g) else { return };
        let (tags, values) = (g.object + g.entry[13] as usize, g.object + g.entry[14] as usize);
        let b = g.buffer.buffer;
        let (tags, values) = (prefixed(b, tags).map(|p| p.1), prefixed(b, values).map(|p| p.1));
        match t.un() {
            Ok(None) => assert!(g.state[13] == 0),
            Ok(Some(v)) => assert!(g.state[13] > 1 && tags == Some(v.len()) && values == Some(v.len())),
            Err(_) => assert!(g.state[13] != 0),
        }
    }
    }
}
