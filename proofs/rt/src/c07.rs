//! Tables are read back as they were written.
use crate::window::*;
use planus::{table_reader::Table, table_writer::*, *};

const W: usize = 112;

/// The finished buffer, and where the table and its vtable are in it
fn finish(b: &mut Builder) -> (&[u8], usize, usize) {
    let root: Offset<()> = b.current_offset();
    let s = b.finish(root, None);
    let le32 = |at: usize| u32::from_le_bytes([s[at], s[at + 1], s[at + 2], s[at + 3]]);
    let object = le32(0) as usize;
    let vtable = (object as i64 - le32(object) as i32 as i64) as usize;
    (s, object, vtable)
}
fn le16(s: &[u8], at: usize) -> usize {
    u16::from_le_bytes([s[at], s[at + 1]]) as usize
}
fn get<'a, T: TableRead<'a>>(t: &Table<'a>, slot: usize) -> Option<T> {
    match t.access::<T>(slot, "", "") {
        Ok(v) => v,
        Err(_) => panic!("a written table can be read"),
    }
}

/// Tables of up to three fields, given with the slots of the fields and the number of the slot
/// that stays free
macro_rules! table {
    ($name:ident, $a:ty : $x:expr, $b:ty : $y:expr, $c:ty : $z:expr, $free:expr, $max:expr) => {
        window_proof! {
        #[kani::unwind(17)]
        fn $name() {
            let mut win = [0u8; W];
            let mut b = any_builder(&mut win);
            let mut w: TableWriter<{ 4 + 2 * ($max + 1) }> = Default::default();
            let (hx, hy, hz): (bool, bool, bool) = kani::any();
            let (x, y, z): ($a, $b, $c) = kani::any();
            const SX: usize = core::mem::size_of::<$a>();
            const SY: usize = core::mem::size_of::<$b>();
            const SZ: usize = core::mem::size_of::<$c>();
            if hx { w.write_entry::<$a>($x) }
            if hy { w.write_entry::<$b>($y) }
            if hz { w.write_entry::<$c>($z) }
            unsafe {
                w.finish(&mut b, |o| {
                    if hx { o.write::<$a, $a, SX>(&x) }
                    if hy { o.write::<$b, $b, SY>(&y) }
                    if hz { o.write::<$c, $c, SZ>(&z) }
                })
            };
            let (s, object, vtable) = finish(&mut b);
            let t = match Table::from_buffer(SliceWithStartOffset { buffer: s, offset_from_start: 0 }, 0) {
                Ok(t) => t,
                Err(_) => panic!("a written table can be opened"),
            };
            assert!(get::<$a>(&t, $x) == if hx { Some(x) } else { None }, "the first field");
            assert!(get::<$b>(&t, $y) == if hy { Some(y) } else { None }, "the second field");
            assert!(get::<$c>(&t, $z) == if hz { Some(z) } else { None }, "the third field");
            assert!(get::<u8>(&t, $free).is_none() && get::<u8>(&t, $max + 1).is_none(), "no other fields");
            // The layout of the table
            let mut slots = 0;
            if hx && slots < $x + 1 { slots = $x + 1 }
            if hy && slots < $y + 1 { slots = $y + 1 }
            if hz && slots < $z + 1 { slots = $z + 1 }
            assert!(le16(s, vtable) == 4 + 2 * slots, "the vtable ends with the last field");
            let size = le16(s, vtable + 2);
            assert!(size >= 4 && object + size <= s.len(), "the table is in the buffer");
            let end = |i: usize, n: usize| le16(s, vtable + 4 + 2 * i) + n;
            assert!(!hx || end($x, SX) <= size, "the first field is in the table");
            assert!(!hy || end($y, SY) <= size, "the second field is in the table");
            assert!(!hz || end($z, SZ) <= size, "the third field is in the table");
            kani::cover!(hx && hy && hz);
        }
        }
    };
}
table!(table_8_4_2, u64: 1, u32: 3, u16: 0, 2, 3);
table!(table_8_1_1, i64: 0, bool: 2, u8: 1, 3, 3);
table!(table_4_2_1, i32: 4, i16: 1, i8: 2, 0, 4);
table!(table_8_8_4, u64: 2, i64: 0, i32: 1, 3, 3);

window_proof! {
#[kani::unwind(17)]
fn two_tables() {
    // The second table refers to the first
    let mut win = [0u8; W];
    let mut b = any_builder(&mut win);
    let (x, y): (u32, u16) = kani::any();
    let mut w: TableWriter<6> = Default::default();
    w.write_entry::<u32>(0);
    unsafe { w.finish(&mut b, |o| o.write::<u32, u32, 4>(&x)) };
    let first: Offset<()> = b.current_offset();
    let mut w: TableWriter<8> = Default::default();
    w.write_entry::<Offset<()>>(1);
    w.write_entry::<u16>(0);
    unsafe {
        w.finish(&mut b, |o| {
            o.write::<Offset<()>, Offset<()>, 4>(&first);
            o.write::<u16, u16, 2>(&y);
        })
    };
    let (s, object, vtable) = finish(&mut b);
    let r = SliceWithStartOffset { buffer: s, offset_from_start: 0 };
    let t = Table::from_buffer(r, 0).ok().unwrap();
    assert!(get::<u16>(&t, 0) == Some(y));
    let child = match Table::from_buffer(r, object + le16(s, vtable + 6)) {
        Ok(t) => t,
        Err(_) => panic!("the first table can be opened through the second"),
    };
    assert!(get::<u32>(&child, 0) == Some(x) && get::<u32>(&child, 1).is_none());
}
}

/// A struct of more bytes than fit into one byte of an offset
struct Large;
const LARGE: usize = 264;
unsafe impl Primitive for Large {
    const ALIGNMENT: usize = 4;
    const SIZE: usize = LARGE;
}
struct Ends(u8, u8);
impl WriteAsPrimitive<Large> for Ends {
    fn write<const N: usize>(&self, cursor: Cursor<'_, N>, _position: u32) {
        let mut a = [0; N];
        a[0] = self.0;
        a[N - 1] = self.1;
        cursor.finish(a)
    }
}

macro_rules! large {
($name:ident, $last:expr) => {
window_proof! {
#[kani::unwind(524)]
fn $name() {
    // Slots behind 255 and an object of more than 255 bytes, at a fixed position
    let mut win = [0u8; 840];
    let mut b = any_aligned_builder(&mut win);
    let text: Offset<()> = b.current_offset();
    let ends = Ends(kani::any(), kani::any());
    let y: u8 = kani::any();
    let last = $last;
    let mut w: TableWriter<520> = Default::default();
    w.write_entry::<Large>(0);
    w.write_entry::<Offset<()>>(129);
    if last {
        w.write_entry::<u8>(257)
    }
    unsafe {
        w.finish(&mut b, |o| {
            o.write::<Large, Ends, LARGE>(&ends);
            o.write::<Offset<()>, Offset<()>, 4>(&text);
            if last {
                o.write::<u8, u8, 1>(&y)
            }
        })
    };
    let (s, object, vtable) = finish(&mut b);
    let r = SliceWithStartOffset { buffer: s, offset_from_start: 0 };
    let t = match Table::from_buffer(r, 0) {
        Ok(t) => t,
        Err(_) => panic!("a written table can be opened"),
    };
    assert!(get::<u8>(&t, 257) == if last { Some(y) } else { None }, "the last field");
    assert!(get::<u8>(&t, 256).is_none() && get::<u8>(&t, 2).is_none() && get::<u8>(&t, 1).is_none(), "no other fields");
    assert!(get::<u8>(&t, 0) == Some(ends.0), "the first byte of the struct");
    let at = object + le16(s, vtable + 4);
    assert!(s[at + LARGE - 1] == ends.1, "the last byte of the struct");
    let at = object + le16(s, vtable + 4 + 2 * 129);
    let rel = u32::from_le_bytes([s[at], s[at + 1], s[at + 2], s[at + 3]]) as usize;
    // `s` ends where the contents from before the table begin
    assert!(at + rel == s.len(), "the offset behind the struct points to what was written before");
    assert!(le16(s, vtable) == if last { 520 } else { 264 }, "the vtable ends with the last field");
    assert!(le16(s, vtable + 2) >= 4 + LARGE + 4 + last as usize, "the object covers its fields");
}
}
};
}
large!(large_table, true);
large!(large_table_without_last, false);
