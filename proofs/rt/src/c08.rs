//! Vectors, strings and unions are read back as they were written.
use crate::{states::*, window::*};
use planus::{errors::ErrorKind, *};

const W: usize = 112;

/// The finished buffer with the given object as its root: a field at its start holds its offset
fn root<T: ?Sized>(b: &mut Builder, o: Offset<T>) -> SliceWithStartOffset<'_> {
    let buffer = b.finish(erase(o), None);
    SliceWithStartOffset { buffer, offset_from_start: 0 }
}

/// A scalar that can be compared
trait Bits: Copy {
    fn bits(self) -> u64;
    fn any() -> Self;
}
macro_rules! bits {
    ($($ty:ty: $e:expr),*) => { $(impl Bits for $ty {
        fn bits(self) -> u64 { let f: fn($ty) -> u64 = $e; f(self) }
        fn any() -> Self { kani::any() }
    })* };
}
bits!(u8: |x| x as u64, i8: |x| x as u8 as u64, u16: |x| x as u64, i16: |x| x as u16 as u64, u32: |x| x as u64, i32: |x| x as u32 as u64,
      u64: |x| x, i64: |x| x as u64, f32: |x| x.to_bits() as u64, f64: |x| x.to_bits(), bool: |x| x as u64);

fn vector<T: Bits + 'static>(b: &mut Builder, o: Offset<[T]>, data: &[T])
where
    T: VectorRead<'static>,
{
    let r = root(b, o);
    let r: SliceWithStartOffset<'static> = unsafe { core::mem::transmute(r) };
    let v: Vector<'static, T> = TableRead::from_buffer(r, 0).ok().unwrap();
    assert!(v.len() == data.len(), "the length");
    let i: usize = kani::any();
    if i < data.len() {
        assert!(v.get(i).map(Bits::bits) == Some(data[i].bits()), "the elements");
    }
}
macro_rules! scalars {
    ($m:ident, $ty:ty) => {
        mod $m {
            use super::*;
            window_proof! {
            #[cfg_attr(feature = "deep", kani::unwind(17))]
            #[cfg_attr(not(feature = "deep"), kani::unwind(9))]
            fn slice() {
                let mut win = [0; W];
                let mut b = any_builder(&mut win);
                let data = [<$ty as Bits>::any(), <$ty as Bits>::any(), <$ty as Bits>::any()];
                let (o, n): (Offset<[$ty]>, usize) = match kani::any::<u8>() {
                    0 => (b.create_vector(&data[..0]), 0),
                    1 => (b.create_vector(&data[..1]), 1),
                    _ => (b.create_vector(&data[..]), 3),
                };
                vector::<$ty>(&mut b, o, &data[..n]);
            }
            }
            window_proof! {
            #[cfg_attr(feature = "deep", kani::unwind(17))]
            #[cfg_attr(not(feature = "deep"), kani::unwind(9))]
            fn array() {
                let mut win = [0; W];
                let mut b = any_builder(&mut win);
                let data = [<$ty as Bits>::any(), <$ty as Bits>::any(), <$ty as Bits>::any()];
                let o: Offset<[$ty]> = b.create_vector(data);
                vector::<$ty>(&mut b, o, &data);
            }
            }
        }
    };
}
scalars!(u16_, u16);
scalars!(i16_, i16);
scalars!(u32_, u32);
scalars!(i32_, i32);
scalars!(u64_, u64);
scalars!(i64_, i64);
scalars!(f32_, f32);
scalars!(f64_, f64);
scalars!(bool_, bool);

/// Bytes of any number, wherever they are put
fn bytes(b: Builder, o: Offset<()>, data: &[u8], zero: bool) {
    let mut b = b;
    let r = root(&mut b, o);
    let v: &[u8] = TableRead::from_buffer(r, 0).ok().unwrap();
    assert!(v.len() == data.len(), "the length");
    let i: usize = kani::any();
    if i < data.len() {
        assert!(v[i] == data[i], "the bytes");
    }
    if zero {
        let end = v.as_ptr() as usize - r.buffer.as_ptr() as usize + v.len();
        assert!(r.buffer[end] == 0, "the terminator");
    }
    core::mem::forget(b);
}
fn erase<T: ?Sized>(o: Offset<T>) -> Offset<()> {
    unsafe { core::mem::transmute_copy(&o) }
}
state_proof! {
#[kani::unwind(5)]
fn bytes_u8() {
    let mut b = builder(any_state());
    let data = any_bytes();
    let o: Offset<[u8]> = b.create_vector(data);
    bytes(b, erase(o), data, false);
}
}
state_proof! {
#[kani::unwind(5)]
fn bytes_i8() {
    let mut b = builder(any_state());
    let data = any_bytes();
    let o: Offset<[i8]> = b.create_vector(unsafe { core::slice::from_raw_parts(data.as_ptr() as *const i8, data.len()) });
    bytes(b, erase(o), data, false);
}
}
state_proof! {
#[kani::unwind(5)]
fn string() {
    let mut b = builder(any_state());
    let data = any_bytes();
    let o = b.create_string(unsafe { core::str::from_utf8_unchecked(data) });
    bytes(b, erase(o), data, true);
}
}
window_proof! {
#[cfg_attr(feature = "deep", kani::unwind(17))]
#[cfg_attr(not(feature = "deep"), kani::unwind(9))]
fn byte_arrays() {
    let mut win = [0; W];
    let mut b = any_builder(&mut win);
    let data: [u8; 5] = kani::any();
    let o: Offset<()> = if kani::any() {
        let o: Offset<[u8]> = b.create_vector(data);
        erase(o)
    } else if kani::any() {
        let o: Offset<[i8]> = b.create_vector(data.map(|x| x as i8));
        erase(o)
    } else {
        let o: Offset<[u8]> = b.create_vector(data.to_vec());
        erase(o)
    };
    let r = root(&mut b, o);
    let v: &[u8] = TableRead::from_buffer(r, 0).ok().unwrap();
    let i: usize = kani::any();
    assert!(v.len() == 5 && (i >= 5 || v[i] == data[i]));
}
}

/// core's validation of strings is not what is proved here
fn from_utf8(b: &[u8]) -> core::result::Result<&str, core::str::Utf8Error> {
    Ok(unsafe { core::str::from_utf8_unchecked(b) })
}
window_proof! {
#[cfg_attr(feature = "deep", kani::unwind(17))]
#[cfg_attr(not(feature = "deep"), kani::unwind(9))]
#[kani::stub(core::str::from_utf8, from_utf8)]
fn strings() {
    let mut win = [0; W];
    let mut b = any_builder(&mut win);
    let (x, y): ([u8; 3], [u8; 1]) = kani::any();
    let x = unsafe { core::str::from_utf8_unchecked(&x) };
    let y = unsafe { core::str::from_utf8_unchecked(&y) };
    let o: Offset<[Offset<str>]> = if kani::any() { b.create_vector([x, y]) } else { b.create_vector(&[x, y][..]) };
    let r = root(&mut b, o);
    let v: Vector<'_, planus::Result<&str>> = TableRead::from_buffer(r, 0).ok().unwrap();
    assert!(v.len() == 2);
    let (gx, gy) = (v.get(0).unwrap().ok().unwrap().as_bytes(), v.get(1).unwrap().ok().unwrap().as_bytes());
    let i: usize = kani::any();
    assert!(gx.len() == 3 && (i >= 3 || gx[i] == x.as_bytes()[i]), "the first string");
    assert!(gy.len() == 1 && gy[0] == y.as_bytes()[0], "the second string");
}
}

/// A union whose value is a number
#[derive(Copy, Clone)]
struct Any(u8, u32);
impl WriteAsUnion<Any> for Any {
    fn prepare(&self, b: &mut Builder) -> UnionOffset<Any> {
        unsafe {
            b.write_with(4, 3, |_, bytes| {
                for i in 0..4 {
                    bytes[i].write(self.1.to_le_bytes()[i]);
                }
            })
        };
        UnionOffset::new(self.0, b.current_offset())
    }
}
struct Read(u8, u32);
impl<'b> TableReadUnion<'b> for Read {
    fn from_buffer(buffer: SliceWithStartOffset<'b>, tag: u8, offset: usize) -> core::result::Result<Self, ErrorKind> {
        let at: u32 = TableRead::from_buffer(buffer, offset)?;
        Ok(Read(tag, TableRead::from_buffer(buffer, offset + at as usize)?))
    }
}
impl<'b> VectorReadUnion<'b> for Read {
    const VECTOR_NAME: &'static str = "any";
}
window_proof! {
#[cfg_attr(feature = "deep", kani::unwind(17))]
#[cfg_attr(not(feature = "deep"), kani::unwind(9))]
fn union_vector() {
    let mut win = [0; W];
    let mut b = any_builder(&mut win);
    let (x, y) = (Any(kani::any(), kani::any()), Any(kani::any(), kani::any()));
    let o: UnionVectorOffset<Any> = if kani::any() { b.create_union_vector(&[x, y][..]) } else { b.create_union_vector([x, y]) };
    let pair: Offset<[Offset<()>]> = b.create_vector([erase(o.tags_offset()), erase(o.values_offset())]);
    let r = root(&mut b, pair);
    let at: u32 = TableRead::from_buffer(r, 0).ok().unwrap();
    let v: UnionVector<'_, Read> = TableReadUnionVector::from_buffer(r, at as usize + 4, at as usize + 8).ok().unwrap();
    assert!(v.len() == 2);
    for (i, w) in [x, y].into_iter().enumerate() {
        let g = v.get(i).unwrap().ok().unwrap();
        assert!(g.0 == w.0 && g.1 == w.1, "the elements");
    }
}
}
window_proof! {
#[cfg_attr(feature = "deep", kani::unwind(17))]
#[cfg_attr(not(feature = "deep"), kani::unwind(9))]
fn union_vector_empty() {
    let mut win = [0; W];
    let mut b = any_builder(&mut win);
    let none: [Any; 0] = [];
    let o: UnionVectorOffset<Any> = b.create_union_vector(none);
    assert!(WriteAsDefaultUnionVector::<Any>::prepare(&none, &mut b).is_none(), "empty by default");
    let o = if kani::any() { erase(o.tags_offset()) } else { erase(o.values_offset()) };
    let r = root(&mut b, o);
    let v: Vector<'_, u32> = TableRead::from_buffer(r, 0).ok().unwrap();
    assert!(v.is_empty() && v.len() == 0);
}
}

// What optional and default values write: absent exactly if there is nothing, or the default
window_proof! {
#[cfg_attr(feature = "deep", kani::unwind(17))]
#[cfg_attr(not(feature = "deep"), kani::unwind(9))]
fn optional() {
    let mut win = [0; W];
    let mut b = any_builder(&mut win);
    let (x, d): (i32, i32) = kani::any();
    assert!(WriteAsDefault::<i32, i32>::prepare(&x, &mut b, &d) == if x == d { None } else { Some(x) });
    assert!(WriteAsOptional::<i32>::prepare(&x, &mut b) == Some(x));
    assert!(WriteAsOptional::<i32>::prepare(&Some(x), &mut b) == Some(x));
    assert!(WriteAsOptional::<i32>::prepare(&None::<i32>, &mut b).is_none());
    let (p, q): (bool, bool) = kani::any();
    assert!(WriteAsDefault::<bool, bool>::prepare(&p, &mut b, &q).map(|x| bit(x)) == if p == q { None } else { Some(p as u8) });
    let (f, g): (f64, f64) = kani::any();
    let w = WriteAsDefault::<f64, f64>::prepare(&f, &mut b, &g);
    assert!(w.map(f64::to_bits) == if f == g { None } else { Some(f.to_bits()) });
    let before = b.len();
    let u: Option<Any> = None;
    assert!(WriteAsOptionalUnionVector::<Any>::prepare(&None::<[Any; 1]>, &mut b).is_none());
    let _ = u;
    assert!(b.len() == before, "absent values write nothing");
}
}
fn bit<T: WriteAsPrimitive<bool>>(x: T) -> u8 {
    let mut out = [core::mem::MaybeUninit::new(7u8)];
    x.write(Cursor::new(&mut out), 0);
    unsafe { out[0].assume_init() }
}
