//! Alignment, counted from the start of the finished buffer.
//!
//! `promise`: whatever is written to a builder next, and however it is finished, the distance of
//! everything written before from the start of the finished buffer only changes by multiples of
//! the largest alignment used so far. `aligned`: if the builder were finished right after a write,
//! that write would be aligned. Together, by induction over the writes that follow, everything is
//! aligned in every finished buffer. Both are proved for every state of the builder, every write
//! and every power of two.
use crate::states::*;

state_proof! {
#[kani::unwind(5)]
fn promise() {
    let s = any_state();
    let without = finished(builder(s));
    let mut b = builder(s);
    let (n, m) = (size(), mask());
    unsafe { b.write_with(n, m, |_, _| {}) };
    let with = finished(b);
    assert!(with.wrapping_sub(without) & s.mask == 0, "earlier objects stay aligned");
    kani::cover!(n > 0 && m > 0);
}
}

state_proof! {
#[kani::unwind(5)]
fn aligned() {
    let mut b = builder(any_state());
    let (n, m) = (size(), mask());
    unsafe { b.write_with(n, m, |_, _| {}) };
    let at = b.len();
    assert!((finished(b) - at) & m == 0, "the written bytes are aligned");
}
}

state_proof! {
#[kani::unwind(5)]
fn aligned_prepare() {
    let mut b = builder(any_state());
    let (bytes, m) = (any_bytes(), mask());
    let at = planus::verif_hooks::prepare_write(&mut b, bytes.len(), m);
    planus::verif_hooks::write(&mut b, bytes);
    assert!(at == b.len());
    assert!((finished(b) - at) & m == 0, "the written bytes are aligned");
}
}

/// The root offset itself is at the start, four bytes, and the buffer is as long as the padding
/// makes it: a multiple of the alignments used
state_proof! {
#[kani::unwind(5)]
fn finish_is_whole() {
    let s = any_state();
    let mut b = builder(s);
    let (n, m) = (size(), mask());
    unsafe { b.write_with(n, m, |_, _| {}) };
    let (at, total) = (b.len(), finished(b));
    assert!(total >= at + 4 && total - at < 16 + s.mask + m, "no more than the header and padding");
}
}

/// The objects: what their elements and fields need
mod objects {
    use crate::states::{any_bytes, any_state, builder, finished, state_proof};
    use planus::{table_writer::*, *};

    use crate::window::*;
    const W: usize = 112;
    fn start(win: &mut [u8; W]) -> Builder {
        core::mem::ManuallyDrop::into_inner(any_builder(win))
    }
    /// The vector at the front of the builder: its length prefix and elements are aligned
    fn vector(b: Builder, mask: usize) {
        let at = b.len();
        let total = finished(b);
        assert!((total - at) & 3 == 0, "the length prefix is aligned");
        assert!((total - at + 4) & mask == 0, "the elements are aligned");
    }
    macro_rules! vectors {
        ($m:ident, $ty:ty) => {
            mod $m {
                use super::*;
                window_proof! {
                #[kani::unwind(17)]
                fn slice() {
                    let mut win = [0; W];
                    let mut b = start(&mut win);
                    let data = [<$ty as Default>::default(); 3];
                    let _: Offset<[$ty]> = match kani::any::<u8>() {
                        0 => b.create_vector(&data[..0]),
                        1 => b.create_vector(&data[..1]),
                        _ => b.create_vector(&data[..3]),
                    };
                    vector(b, core::mem::size_of::<$ty>() - 1);
                }
                }
                window_proof! {
                #[kani::unwind(17)]
                fn array() {
                    let mut win = [0; W];
                    let mut b = start(&mut win);
                    let _: Offset<[$ty]> = b.create_vector([<$ty as Default>::default(); 3]);
                    vector(b, core::mem::size_of::<$ty>() - 1);
                }
                }
            }
        };
    }
    vectors!(u16_, u16);
    vectors!(f32_, f32);
    vectors!(i64_, i64);
    vectors!(f64_, f64);
    vectors!(bool_, bool);

    window_proof! {
    #[kani::unwind(17)]
    fn offsets() {
        let mut win = [0; W];
                    let mut b = start(&mut win);
        let o: Offset<()> = b.current_offset();
        if kani::any() {
            let _: Offset<[Offset<()>]> = b.create_vector([o, o]);
        } else {
            let _: Offset<[Offset<()>]> = b.create_vector(&[o][..]);
        }
        vector(b, 3);
    }
    }
    state_proof! {
    #[kani::unwind(17)]
    fn byte_slice() {
        let mut b = builder(any_state());
        let data = any_bytes();
        let _: Offset<[u8]> = b.create_vector(data);
        vector(b, 0);
    }
    }
    state_proof! {
    #[kani::unwind(17)]
    fn string() {
        let mut b = builder(any_state());
        let data = any_bytes();
        b.create_string(unsafe { core::str::from_utf8_unchecked(data) });
        vector(b, 0);
    }
    }
    struct Any;
    impl WriteAsUnion<()> for Any {
        fn prepare(&self, b: &mut Builder) -> UnionOffset<()> {
            UnionOffset::new(1, b.current_offset())
        }
    }
    window_proof! {
    #[kani::unwind(17)]
    fn union_vector() {
        let mut win = [0; W];
                    let mut b = start(&mut win);
        let o = if kani::any() {
            b.create_union_vector(&[Any, Any][..])
        } else {
            b.create_union_vector([Any])
        };
        let _: UnionVectorOffset<()> = o;
        let tags = position(&b, o.tags_offset());
        let values = position(&b, o.values_offset());
        let total = finished(b);
        assert!((total - tags) & 3 == 0 && (total - values) & 3 == 0);
    }
    }
    /// The distance of an offset from the end of the buffer
    fn position<T: ?Sized>(_b: &Builder, o: Offset<T>) -> usize {
        let mut out = [core::mem::MaybeUninit::new(0u8); 4];
        WriteAsPrimitive::<Offset<T>>::write(&o, Cursor::new(&mut out), u32::MAX);
        let out: [u8; 4] = unsafe { core::mem::transmute(out) };
        (u32::MAX - u32::from_le_bytes(out)) as usize
    }

    /// A struct of any alignment
    #[derive(Copy, Clone)]
    struct Struct<const A: usize, const S: usize>;
    unsafe impl<const A: usize, const S: usize> Primitive for Struct<A, S> {
        const ALIGNMENT: usize = A;
        const SIZE: usize = S;
    }
    impl<const A: usize, const S: usize> WriteAsPrimitive<Struct<A, S>> for Struct<A, S> {
        fn write<const N: usize>(&self, cursor: Cursor<'_, N>, _: u32) {
            cursor.assert_size::<N>().finish([0; N])
        }
    }
    /// Every present field of a table with fields of three alignments
    macro_rules! table {
        ($name:ident, $a:ty, $b:ty, $c:ty, $x:expr, $y:expr, $z:expr) => {
            window_proof! {
            #[kani::unwind(33)]
            fn $name() {
                let mut win = [0; W];
                    let mut b = start(&mut win);
                let (hx, hy, hz): (bool, bool, bool) = kani::any();
                let mut w: TableWriter<10> = Default::default();
                if hx { w.write_entry::<$a>(1) }
                if hy { w.write_entry::<$b>(2) }
                if hz { w.write_entry::<$c>(0) }
                unsafe {
                    w.finish(&mut b, |o| {
                        if hx { o.write::<$a, $a, { <$a as Primitive>::SIZE }>(&$x) }
                        if hy { o.write::<$b, $b, { <$b as Primitive>::SIZE }>(&$y) }
                        if hz { o.write::<$c, $c, { <$c as Primitive>::SIZE }>(&$z) }
                    })
                };
                let at = b.len();
                let s = b.as_slice();
                let le16 = |i: usize| u16::from_le_bytes([s[i], s[i + 1]]) as usize;
                let vtable = i32::from_le_bytes([s[0], s[1], s[2], s[3]]).wrapping_neg() as usize;
                let size = le16(vtable);
                let slot = |i: usize| if 4 + 2 * i < size { le16(vtable + 4 + 2 * i) } else { 0 };
                let (x, y, z) = (slot(1), slot(2), slot(0));
                assert!((x > 0) == hx && (y > 0) == hy && (z > 0) == hz);
                let total = finished(b);
                assert!((total - at) & 3 == 0, "the table is aligned");
                assert!((total - at + vtable) & 1 == 0, "the vtable is aligned");
                assert!(!hx || (total - at + x) % <$a as Primitive>::ALIGNMENT == 0, "the first field is aligned");
                assert!(!hy || (total - at + y) % <$b as Primitive>::ALIGNMENT == 0, "the second field is aligned");
                assert!(!hz || (total - at + z) % <$c as Primitive>::ALIGNMENT == 0, "the third field is aligned");
            }
            }
        };
    }
    table!(table_8_4_1, u64, u32, u8, 0u64, 0u32, 0u8);
    table!(table_4_2_1, u32, u16, u8, 0u32, 0u16, 0u8);
    type S16 = Struct<16, 16>;
    type S8 = Struct<8, 24>;
    type S2 = Struct<2, 6>;
    table!(table_struct_16, S16, S8, S2, Struct, Struct, Struct);
}
