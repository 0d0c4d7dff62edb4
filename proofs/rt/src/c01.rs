//! Reading arbitrary bytes is safe: every obligation here is one that Kani adds by itself, to
//! every access to memory, every arithmetic operation and every panic of the real code.
use crate::{gen::corpus::*, probe::*};
use planus::{table_reader::Table, *};

/// Any object of any table can be anywhere in the buffer, or outside of it
fn anywhere(b: SliceWithStartOffset<'_>) -> usize {
    any_offset(b)
}
fn utf8(b: &[u8]) -> core::result::Result<&str, core::str::Utf8Error> {
    // Validation is the standard library's. That all of the bytes are there is our obligation.
    if !b.is_empty() {
        let i: usize = kani::any();
        kani::assume(i < b.len());
        let _ = b[i];
    }
    if kani::any() {
        Ok(unsafe { core::str::from_utf8_unchecked(b) })
    } else {
        Err(unsafe { core::mem::zeroed() })
    }
}
fn bytes(b: &[u8]) {
    let i: usize = kani::any();
    if i < b.len() {
        let _ = core::hint::black_box(b[i]);
    }
}

macro_rules! proof {
    ($name:ident, $body:expr) => {
        #[kani::proof]
        #[kani::unwind(9)]
        #[kani::stub(core::str::from_utf8, crate::c01::utf8)]
        fn $name() {
            let b = any_buffer();
            let f: fn(SliceWithStartOffset<'static>) = $body;
            f(b)
        }
    };
}
fn read<T: TableRead<'static>>(b: SliceWithStartOffset<'static>) -> Option<T> {
    let r = T::from_buffer(b, anywhere(b)).ok();
    kani::cover!(r.is_some(), "something can be read");
    r
}

/// Values at any position
mod values {
    use super::*;
    proof!(slices, |b| {
        // Positions are sums of lengths and 32 bit offsets
        let (i, n): (usize, usize) = kani::any();
        kani::assume(i <= 1 << 62 && n <= 1 << 62);
        if let Ok(s) = b.advance(i) {
            bytes(s.buffer);
        }
        if let Ok(a) = b.advance_as_array::<8>(n) {
            bytes(a.as_array());
            if let Ok(a) = a.advance_as_array::<2>(i) {
                bytes(a.as_array());
            }
        }
    });
    proof!(scalars, |b| {
        read::<u8>(b);
        read::<u16>(b);
        read::<f32>(b);
        read::<i64>(b);
    });
    proof!(enums, |b| {
        read::<Small>(b);
        read::<Flags>(b);
        read::<Wide>(b);
    });
    proof!(string, |b| if let Some(s) = read::<&str>(b) {
        bytes(s.as_bytes());
    });
    proof!(byte_slice, |b| if let Some(s) = read::<&[u8]>(b) {
        bytes(s);
    });
    proof!(outer, |b| if let Some(s) = read::<OuterRef>(b) {
        let _ = (s.x(), s.y().a(), s.y().b(), s.y().c(), s.e(), s.z(), s.f());
    });
    fn nth<T: VectorRead<'static>>(v: Vector<'static, T>) -> Option<T> {
        let i: usize = kani::any();
        let e = v.get(i);
        kani::cover!(e.is_some(), "an element can be read");
        e
    }
    proof!(vector_u16, |b| if let Some(v) = read::<Vector<u16>>(b) {
        nth(v);
    });
    proof!(vector_f64, |b| if let Some(v) = read::<Vector<f64>>(b) {
        nth(v);
    });
    proof!(vector_enum, |b| if let Some(v) = read::<Vector<core::result::Result<Small, errors::UnknownEnumTag>>>(b) {
        nth(v);
    });
    proof!(vector_struct, |b| if let Some(v) = read::<Vector<InnerRef>>(b) {
        if let Some(s) = nth(v) {
            let _ = (s.a(), s.c());
        }
    });
    proof!(vector_outer, |b| if let Some(v) = read::<Vector<OuterRef>>(b) {
        if let Some(s) = nth(v) {
            let _ = (s.x(), s.f());
        }
    });
    proof!(vector_str, |b| if let Some(v) = read::<Vector<Result<&'static str>>>(b) {
        if let Some(Ok(s)) = nth(v) {
            bytes(s.as_bytes());
        }
    });
    proof!(vector_table, |b| if let Some(v) = read::<Vector<Result<EmptyRef<'static>>>>(b) {
        nth(v);
    });
    proof!(vector_slice, |b| if let Some(v) = read::<Vector<u32>>(b) {
        let (from, to): (usize, usize) = kani::any();
        if let Some(v) = v.get(from..to) {
            let _ = v.last();
        }
    });
    proof!(union_vector, |b| {
        let (tags, values) = (anywhere(b), anywhere(b));
        if let Ok(v) = <UnionVector<Un> as TableReadUnionVector>::from_buffer(b, tags, values) {
            let _ = v.get(kani::any::<usize>());
        }
    });
    proof!(union_text, |b| {
        if let Ok(AnyRef::Text(s)) = <AnyRef as TableReadUnion>::from_buffer(b, 3, anywhere(b)) {
            bytes(s.as_bytes());
        }
    });
    proof!(union_out, |b| {
        if let Ok(AnyRef::Out(s)) = <AnyRef as TableReadUnion>::from_buffer(b, 4, anywhere(b)) {
            let _ = (s.x(), s.f());
        }
    });
    proof!(union_table, |b| {
        let _ = <AnyRef as TableReadUnion>::from_buffer(b, if kani::any() { 1 } else { 200 }, anywhere(b));
    });
}

/// Tables at any position, and any of their fields
mod tables {
    use super::*;
    proof!(field, |b| if let Some(t) = read_table(b) {
        let _ = t.access::<u64>(any_slot(), "", "");
    });
    proof!(required, |b| if let Some(t) = read_table(b) {
        let _ = t.access_required::<u64>(any_slot(), "", "");
    });
    proof!(union, |b| if let Some(t) = read_table(b) {
        let _ = t.access_union::<Un>(any_slot(), "", "");
    });
    proof!(union_required, |b| if let Some(t) = read_table(b) {
        let _ = t.access_union_required::<Un>(any_slot(), "", "");
    });
    proof!(union_vector, |b| if let Some(t) = read_table(b) {
        let _ = t.access_union_vector::<FldVec>(any_slot(), "", "");
    });
    proof!(union_vector_required, |b| if let Some(t) = read_table(b) {
        let _ = t.access_union_vector_required::<FldVec>(any_slot(), "", "");
    });
    fn any_slot() -> usize {
        kani::any_where(|i: &usize| *i < 1 << 20)
    }
    fn read_table(b: SliceWithStartOffset<'static>) -> Option<Table<'static>> {
        Table::from_buffer(b, anywhere(b)).ok()
    }
}

/// The same, put together: the generated code from the root of a small buffer on
mod whole {
    use super::*;
    fn root<T: ReadAsRoot<'static>>() -> Option<T> {
        let data: [u8; 28] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= data.len());
        T::read_as_root(&Box::leak(Box::new(data))[..n]).ok()
    }
    macro_rules! whole {
        ($name:ident, $t:ty, |$x:ident| $body:expr) => {
            #[kani::proof]
            #[kani::unwind(9)]
            #[kani::stub(core::str::from_utf8, crate::c01::utf8)]
            fn $name() {
                if let Some($x) = root::<$t>() {
                    let _ = $body;
                }
            }
        };
    }
    whole!(scalars, ScalarsRef, |t| (t.b(), t.u16(), t.i64(), t.e(), t.fl()));
    whole!(optionals, OptionalsRef, |t| (t.f64(), t.o().map(|o| o.map(|o| o.f())), t.rs()));
    whole!(child, RefsRef, |t| t.child().map(|c| c.map(|c| c.name())));
    whole!(unions, RefsRef, |t| match t.u() {
        Ok(Some(AnyRef::Child(c))) => drop(c.id()),
        _ => (),
    });
    whole!(vectors, VectorsRef, |t| t.t().map(|v| v.map(|v| v.first().map(|c| c.map(|c| c.id())))));
    whole!(union_vector, VectorsRef, |t| t.un().map(|v| v.map(|v| v.last())));
}
