//! Tables are decoded as the format says.
use crate::{probe::*, spec::*};
use planus::{
    errors::{Error, ErrorKind},
    table_reader::Table,
    *,
};

const TYPE: &str = "type";
const METHOD: &str = "method";

fn located(e: &Error, at: usize) -> bool {
    e.source_location.byte_offset == at
        && core::ptr::eq(e.source_location.type_, TYPE)
        && core::ptr::eq(e.source_location.method, METHOD)
}

fn any_table() -> Option<(SliceWithStartOffset<'static>, Spec, Table<'static>)> {
    let buffer = any_buffer();
    let field = any_offset(buffer);
    let spec = open(buffer.buffer, field);
    let table = Table::from_buffer(buffer, field);
    kani::cover!(table.is_ok(), "a table can be opened");
    kani::cover!(table.is_err(), "a table can be rejected");
    assert!(
        table.is_ok() == spec.is_some(),
        "a table opens exactly if its header is well formed"
    );
    Some((buffer, spec?, table.ok()?))
}

/// Field numbers a vtable can have, and more
fn any_field() -> usize {
    let i: usize = kani::any();
    kani::assume(i <= 1 << 20);
    i
}

#[kani::proof]
#[kani::unwind(5)]
fn table_access() {
    let Some((buffer, spec, table)) = any_table() else {
        return;
    };
    let i = any_field();
    let slot = spec.slot(buffer.buffer, i);
    let object = spec.object as usize;
    kani::cover!(slot != 0, "a field can be present");
    match table.access::<Fld>(i, TYPE, METHOD) {
        Ok(None) => assert!(slot == 0, "absent exactly if the vtable has no entry"),
        Ok(Some(f)) => {
            assert!(slot != 0 && slot % 2 == 0);
            assert!(f == Fld { object, offset: slot as usize }, "read at the entry of the vtable");
        }
        Err(e) => {
            assert!(slot % 2 == 1, "only the error of the field is reported");
            assert!(matches!(e.error_kind, ErrorKind::UnknownUnionTag { tag: 77 }));
            assert!(located(&e, buffer.offset_from_start + object), "errors name the table");
        }
    }
}

#[kani::proof]
#[kani::unwind(5)]
fn table_access_required() {
    let Some((buffer, spec, table)) = any_table() else {
        return;
    };
    let i = any_field();
    let slot = spec.slot(buffer.buffer, i);
    let object = spec.object as usize;
    match table.access_required::<Fld>(i, TYPE, METHOD) {
        Ok(f) => {
            assert!(slot != 0 && slot % 2 == 0);
            assert!(f == Fld { object, offset: slot as usize }, "read at the entry of the vtable");
        }
        Err(e) => {
            if slot == 0 {
                assert!(matches!(e.error_kind, ErrorKind::MissingRequired));
            } else {
                assert!(slot % 2 == 1, "only the error of the field is reported");
                assert!(matches!(e.error_kind, ErrorKind::UnknownUnionTag { tag: 77 }));
            }
            assert!(located(&e, buffer.offset_from_start + object), "errors name the table");
        }
    }
}

/// What a union field must decode to
enum Union {
    Absent,
    Value(u8, u16),
    Malformed,
}
fn union(b: &[u8], spec: &Spec, i: usize) -> Union {
    let at = 4 + 2 * i as u128;
    if at >= spec.size as u128 {
        return Union::Absent;
    }
    if at + 4 > spec.size as u128 {
        // A tag without a value
        return Union::Malformed;
    }
    let (tag, value) = (spec.slot(b, i), spec.slot(b, i + 1));
    match le8(b, spec.object + tag as u128) {
        None => Union::Malformed,
        Some(t) if tag != 0 && value != 0 && t != 0 => Union::Value(t, value),
        Some(_) => Union::Absent,
    }
}

#[kani::proof]
#[kani::unwind(5)]
fn table_access_union() {
    let Some((buffer, spec, table)) = any_table() else {
        return;
    };
    let i = any_field();
    let object = spec.object as usize;
    let expected = union(buffer.buffer, &spec, i);
    kani::cover!(matches!(expected, Union::Value(..)));
    kani::cover!(matches!(expected, Union::Malformed));
    match table.access_union::<Un>(i, TYPE, METHOD) {
        Ok(None) => assert!(matches!(expected, Union::Absent)),
        Ok(Some(u)) => match expected {
            Union::Value(tag, value) => {
                assert!(u == Un { tag, pos: object + value as usize })
            }
            _ => panic!("a union that is not there"),
        },
        Err(e) => {
            match expected {
                Union::Value(tag, _) => assert!(tag >= 200),
                Union::Malformed => (),
                Union::Absent => panic!("an error for an absent union"),
            }
            assert!(located(&e, buffer.offset_from_start + object), "errors name the table");
        }
    }
}

#[kani::proof]
#[kani::unwind(5)]
fn table_access_union_required() {
    let Some((buffer, spec, table)) = any_table() else {
        return;
    };
    let i = any_field();
    let object = spec.object as usize;
    let expected = union(buffer.buffer, &spec, i);
    match table.access_union_required::<Un>(i, TYPE, METHOD) {
        Ok(u) => match expected {
            Union::Value(tag, value) => {
                assert!(u == Un { tag, pos: object + value as usize })
            }
            _ => panic!("a union that is not there"),
        },
        Err(e) => {
            match expected {
                Union::Value(tag, _) => assert!(tag >= 200),
                Union::Malformed => (),
                Union::Absent => assert!(matches!(e.error_kind, ErrorKind::MissingRequired)),
            }
            assert!(located(&e, buffer.offset_from_start + object), "errors name the table");
        }
    }
}

fn check_union_vector(required: bool) {
    let Some((buffer, spec, table)) = any_table() else {
        return;
    };
    let i = any_field();
    let object = spec.object as usize;
    let (tags, values) = (
        spec.slot(buffer.buffer, i) as usize,
        spec.slot(buffer.buffer, i + 1) as usize,
    );
    let result = if required {
        table
            .access_union_vector_required::<FldVec>(i, TYPE, METHOD)
            .map(Some)
    } else {
        table.access_union_vector::<FldVec>(i, TYPE, METHOD)
    };
    kani::cover!(matches!(result, Ok(Some(_))));
    match result {
        Ok(None) => {
            assert!(!required && values == 0);
            // A vtable that ends between the two entries counts as absent
            assert!(tags == 0 || 4 + 2 * i + 4 > spec.size as usize);
        }
        Ok(Some(v)) => assert!(
            tags != 0
                && values != 0
                && v == FldVec {
                    object,
                    tags,
                    values
                }
        ),
        Err(e) => {
            assert!(required || tags % 2 == 1 || (tags == 0) != (values == 0));
            if tags == 0 && values == 0 {
                assert!(matches!(e.error_kind, ErrorKind::MissingRequired));
            } else if tags != 0 && values != 0 {
                assert!(tags % 2 == 1);
            }
            assert!(located(&e, buffer.offset_from_start + object), "errors name the table");
        }
    }
}
#[kani::proof]
#[kani::unwind(5)]
fn table_access_union_vector() {
    check_union_vector(false)
}
#[kani::proof]
#[kani::unwind(5)]
fn table_access_union_vector_required() {
    check_union_vector(true)
}

/// The fields themselves: `advance_as_array` contract plus little endian decoding.
macro_rules! scalar {
    ($name:ident, $ty:ty, $n:expr, $bits:ident, $dec:expr) => {
        #[kani::proof]
        #[kani::unwind(9)]
        fn $name() {
            let buffer = any_buffer();
            let offset = any_offset(buffer);
            let got: core::result::Result<$ty, ErrorKind> = TableRead::from_buffer(buffer, offset);
            let want = le::<$n>(buffer.buffer, offset as u128);
            kani::cover!(got.is_ok());
            kani::cover!(got.is_err());
            match (got, want) {
                (Ok(g), Some(w)) => {
                    let d: fn([u8; $n], $ty) -> bool = $dec;
                    assert!(d(w, g), "little endian value")
                }
                (Err(_), None) => (),
                _ => panic!("a scalar reads exactly if it is inside of the buffer"),
            }
        }
    };
}
macro_rules! int {
    ($name:ident, $ty:ident, $n:expr) => {
        scalar!($name, $ty, $n, $ty, |w, g| <$ty>::from_le_bytes(w) == g);
    };
}
int!(field_u8, u8, 1);
int!(field_i8, i8, 1);
int!(field_u16, u16, 2);
int!(field_i16, i16, 2);
int!(field_u32, u32, 4);
int!(field_i32, i32, 4);
int!(field_u64, u64, 8);
int!(field_i64, i64, 8);
scalar!(field_f32, f32, 4, f32, |w, g| u32::from_le_bytes(w) == g.to_bits());
scalar!(field_f64, f64, 8, f64, |w, g| u64::from_le_bytes(w) == g.to_bits());
scalar!(field_bool, bool, 1, bool, |w, g| (w[0] != 0) == g);

macro_rules! bytes {
    ($name:ident, $ty:ty) => {
        #[kani::proof]
        #[kani::unwind(5)]
        fn $name() {
            let buffer = any_buffer();
            let offset = any_offset(buffer);
            let got: core::result::Result<&[$ty], ErrorKind> = TableRead::from_buffer(buffer, offset);
            let want = prefixed(buffer.buffer, offset)
                .filter(|(at, len)| at + len <= buffer.buffer.len());
            kani::cover!(got.is_ok());
            match (got, want) {
                (Ok(g), Some((at, len))) => {
                    assert!(g.len() == len);
                    assert!(g.as_ptr() as usize == buffer.buffer.as_ptr() as usize + at);
                }
                (Err(_), None) => (),
                _ => panic!("bytes read exactly if they are inside of the buffer"),
            }
        }
    };
}
bytes!(field_bytes_u8, u8);
bytes!(field_bytes_i8, i8);

fn check_vector<const S: usize>() {
    let buffer = any_buffer();
    let offset = any_offset(buffer);
    let got: core::result::Result<Vector<'static, El<S>>, ErrorKind> = TableRead::from_buffer(buffer, offset);
    let want = prefixed(buffer.buffer, offset)
        .filter(|(at, len)| at + len * S <= buffer.buffer.len());
    kani::cover!(got.is_ok());
    match (got, want) {
        (Ok(g), Some((at, len))) => {
            assert!(g.len() == len && g.is_empty() == (len == 0));
            let i: usize = kani::any();
            assert!(g.get(i) == if i < len { Some(El { pos: at + i * S }) } else { None });
        }
        (Err(_), None) => (),
        _ => panic!("a vector reads exactly if it is inside of the buffer"),
    }
}
#[kani::proof]
#[kani::unwind(5)]
fn field_vector_1() {
    check_vector::<1>()
}
#[kani::proof]
#[kani::unwind(5)]
fn field_vector_4() {
    check_vector::<4>()
}
#[kani::proof]
#[kani::unwind(5)]
fn field_vector_24() {
    check_vector::<24>()
}

#[kani::proof]
#[kani::unwind(5)]
fn field_union_vector() {
    let buffer = any_buffer();
    let (tags, values) = (any_offset(buffer), any_offset(buffer));
    let got: core::result::Result<UnionVector<'static, Un>, ErrorKind> =
        TableReadUnionVector::from_buffer(buffer, tags, values);
    let len = buffer.buffer.len();
    let want_t = prefixed(buffer.buffer, tags).filter(|(at, n)| at + n <= len);
    let want_v = prefixed(buffer.buffer, values).filter(|(at, n)| at + 4 * n <= len);
    kani::cover!(got.is_ok());
    match (got, want_t, want_v) {
        (Ok(g), Some((t, n)), Some((v, m))) => {
            assert!(n == m && g.len() == n && g.is_empty() == (n == 0));
            let i: usize = kani::any();
            match g.get(i) {
                Some(r) => {
                    assert!(i < n);
                    let tag = buffer.buffer[t + i];
                    match r {
                        Ok(u) => assert!(u == Un { tag, pos: v + 4 * i }),
                        Err(e) => assert!(
                            matches!(e.error_kind, ErrorKind::UnknownUnionTag { tag: t } if t == tag)
                        ),
                    }
                }
                None => assert!(i >= n),
            }
        }
        (Err(e), Some((_, n)), Some((_, m))) => {
            assert!(n != m, "a pair of vectors of the same length reads");
            assert!(matches!(e, ErrorKind::UnionVectorLengthsMismatched { tags_len, values_len }
                if tags_len == n && values_len == m));
        }
        (Err(_), _, _) => (),
        _ => panic!("a vector of unions reads exactly if it is inside of the buffer"),
    }
}
