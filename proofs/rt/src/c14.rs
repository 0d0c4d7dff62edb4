//! Generated builders write exactly the fields the schema declares.
//!
//! The functions of `planus::table_writer` are replaced by their contracts, which c07 and c06
//! prove of the real functions: an entry is reserved for every field, most aligned first, and the
//! fields are then written in the same order. The contracts record what was written, the proofs
//! compare it with the schema. That readers find it again is the subject of c13 and c07.
use crate::gen::corpus::*;
use core::mem::MaybeUninit;
use planus::{
    table_writer::{ObjectWriter, TableWriter},
    *,
};

/// What was written, and of one arbitrary field all there is to know
struct Ghost {
    entries: usize,
    written: usize,
    sum: usize,
    finished: usize,
    /// The position of the first field, from the end of the buffer
    position: u32,
    witness: usize,
    index: usize,
    size: usize,
    at: u32,
    bytes: [MaybeUninit<u8>; 40],
}
static mut GHOST: Option<Ghost> = None;
fn ghost() -> &'static mut Ghost {
    unsafe { GHOST.as_mut().unwrap() }
}
fn setup() -> Builder {
    let position: u32 = kani::any();
    kani::assume(position >= 1 << 20);
    unsafe {
        GHOST = Some(Ghost {
            entries: 0, written: 0, sum: 0, finished: 0, position, witness: kani::any(),
            index: usize::MAX, size: 0, at: 0, bytes: [MaybeUninit::new(0); 40],
        })
    };
    Builder::with_capacity(256)
}

// The contracts
fn write_entry<const VTABLE_MAX_BYTES: usize, P: Primitive>(_: &mut TableWriter<VTABLE_MAX_BYTES>, slot: usize) {
    let g = ghost();
    assert!(2 * slot + 6 <= VTABLE_MAX_BYTES, "the entry fits in the vtable");
    assert!(g.sum & P::ALIGNMENT_MASK == 0, "fields are written most aligned first");
    assert!(g.finished == 0);
    if slot == g.witness {
        assert!(g.index == usize::MAX, "a field is written once");
        g.index = g.entries;
        g.size = P::SIZE;
        g.at = g.position - g.sum as u32;
    }
    g.sum += P::SIZE;
    g.entries += 1;
}
unsafe fn finish<const VTABLE_MAX_BYTES: usize>(_w: TableWriter<VTABLE_MAX_BYTES>, b: &mut Builder, f: impl FnOnce(&mut ObjectWriter<'_>)) {
    ghost().finished += 1;
    // An opaque handle: only the contracts look at writers
    let mut handle = [8usize; 8];
    f(&mut *(&mut handle as *mut [usize; 8] as *mut ObjectWriter<'_>));
    assert!(ghost().entries == ghost().written, "every entry is written");
    b.write_with(4, 3, |_, x| {
        x[0].write(1);
    });
}
unsafe fn write<'a: 'a, P: Primitive, T: WriteAsPrimitive<P>, const SIZE: usize>(_: &mut ObjectWriter<'a>, value: &T) {
    let g = ghost();
    assert!(P::SIZE == SIZE && SIZE <= 40);
    if g.written == g.index {
        assert!(g.size == SIZE, "fields are written like their entries");
        let mut out = [MaybeUninit::uninit(); SIZE];
        value.write(Cursor::new(&mut out), g.at);
        let mut i = 0;
        while i < SIZE {
            g.bytes[i] = out[i];
            i += 1;
        }
    }
    g.written += 1;
}

macro_rules! proof {
    ($(#[$m:meta])* fn $name:ident() $body:block) => {
        #[kani::proof]
        #[kani::unwind(42)]
        #[kani::stub(planus::table_writer::TableWriter::write_entry, crate::c14::write_entry)]
        #[kani::stub(planus::table_writer::TableWriter::finish, crate::c14::finish)]
        #[kani::stub(planus::table_writer::ObjectWriter::write, crate::c14::write)]
        $(#[$m])*
        fn $name() $body
    };
}

/// Whether these bytes were written for a slot, or nothing
fn same<const N: usize>(slot: usize, want: Option<[u8; N]>) -> bool {
    let g = ghost();
    if slot != g.witness {
        return true;
    }
    let Some(want) = want else { return g.index == usize::MAX };
    if g.index == usize::MAX || g.size != N {
        return false;
    }
    let mut k = 0;
    while k < N {
        if unsafe { g.bytes[k].assume_init() } != want[k] {
            return false;
        }
        k += 1;
    }
    true
}
/// The position of an object, from the end of the buffer: it is written as a difference to that
fn position<T: ?Sized>(o: Offset<T>) -> u32 {
    let mut out = [MaybeUninit::new(0u8); 4];
    WriteAsPrimitive::<Offset<T>>::write(&o, Cursor::new(&mut out), u32::MAX);
    u32::MAX - u32::from_le_bytes(unsafe { core::mem::transmute(out) })
}
fn is_offset(slot: usize, want: Option<u32>) -> bool {
    same(slot, want.map(|p| (ghost().at.wrapping_sub(p)).to_le_bytes()))
}
/// Exactly this many fields were written, and the table is what was written last
fn table<T>(b: &Builder, o: Offset<T>, fields: usize) {
    assert!(ghost().finished == 1 && ghost().entries == fields, "no other fields");
    assert!(position(o) == b.len() as u32 && b.as_slice()[0] == 1, "the offset of the table");
}
/// The offset of some earlier object
fn offset<T: ?Sized>(_: &mut Builder) -> Offset<T> {
    assert!(core::mem::size_of::<Offset<T>>() == 4);
    let p: u32 = kani::any_where(|p: &u32| *p <= 1 << 19);
    let o = unsafe { core::mem::transmute_copy(&p) };
    assert!(position(o) == p, "an offset is its position");
    o
}

fn any_small() -> Small {
    Small::ENUM_VALUES[kani::any_where(|i: &usize| *i < 5)]
}
fn any_wide() -> Wide {
    Wide::ENUM_VALUES[kani::any_where(|i: &usize| *i < 3)]
}
fn any_flags() -> Flags {
    Flags::ENUM_VALUES[kani::any_where(|i: &usize| *i < 3)]
}
fn any_inner() -> Inner {
    Inner { a: kani::any(), b: kani::any(), c: kani::any() }
}
fn any_outer() -> Outer {
    Outer { x: kani::any(), y: any_inner(), e: any_small(), z: kani::any(), f: any_flags() }
}
// The structs as the schema lays them out
fn inner(s: Inner) -> [u8; 12] {
    let (b, c) = (s.b.to_le_bytes(), s.c.to_le_bytes());
    [s.a, 0, 0, 0, b[0], b[1], b[2], b[3], c[0], c[1], 0, 0]
}
fn outer(s: Outer) -> [u8; 40] {
    let mut o = [0; 40];
    o[0] = s.x as u8;
    let y = inner(s.y);
    let mut i = 0;
    while i < 12 {
        o[4 + i] = y[i];
        i += 1;
    }
    o[16] = s.e as u8;
    let z = s.z.to_le_bytes();
    i = 0;
    while i < 8 {
        o[24 + i] = z[i];
        i += 1;
    }
    let f = (s.f as u16).to_le_bytes();
    o[32] = f[0];
    o[33] = f[1];
    o
}

fn any_scalars() -> Scalars {
    Scalars {
        b: kani::any(), bt: kani::any(), i8: kani::any(), u8: kani::any(), i16: kani::any(), u16: kani::any(),
        i32: kani::any(), u32: kani::any(), i64: kani::any(), u64: kani::any(), f32: kani::any(), f64: kani::any(),
        e: any_small(), w: any_wide(), fl: any_flags(),
    }
}
fn check_scalars(b: &Builder, o: Offset<Scalars>, s: Scalars) {
    let mut n = 0;
    macro_rules! check {
        ($slot:expr, $differs:expr, $bytes:expr) => {
            if $differs {
                n += 1;
            }
            assert!(same($slot, if $differs { Some($bytes) } else { None }), "written if it is not the default");
        };
    }
    check!(0, s.b, [1]);
    check!(1, !s.bt, [0]);
    check!(2, s.i8 != -128, s.i8.to_le_bytes());
    check!(3, s.u8 != 255, s.u8.to_le_bytes());
    check!(4, s.i16 != -300, s.i16.to_le_bytes());
    check!(5, s.u16 != 65535, s.u16.to_le_bytes());
    check!(6, s.i32 != i32::MIN, s.i32.to_le_bytes());
    check!(7, s.u32 != u32::MAX, s.u32.to_le_bytes());
    check!(8, s.i64 != i64::MIN, s.i64.to_le_bytes());
    check!(9, s.u64 != u64::MAX, s.u64.to_le_bytes());
    check!(10, s.f32.to_bits() != 1.5f32.to_bits(), s.f32.to_le_bytes());
    check!(11, s.f64.to_bits() != (-0.25f64).to_bits(), s.f64.to_le_bytes());
    check!(12, s.e != Small::Big, (s.e as i8).to_le_bytes());
    check!(13, s.w != Wide::C, (s.w as u64).to_le_bytes());
    check!(14, s.fl != Flags::Blue, (s.fl as u16).to_le_bytes());
    table(b, o, n);
    kani::cover!(n == 15);
    kani::cover!(n == 0);
}
mod scalars {
    use super::*;
    proof! {
    fn owned() {
        let mut b = setup();
        let s = any_scalars();
        let o = WriteAsOffset::prepare(&s, &mut b);
        check_scalars(&b, o, s);
    }
    }
    proof! {
    fn create() {
        let mut b = setup();
        let s = any_scalars();
        let o = Scalars::create(&mut b, s.b, s.bt, s.i8, s.u8, s.i16, s.u16, s.i32, s.u32, s.i64, s.u64, s.f32, s.f64, s.e, s.w, s.fl);
        check_scalars(&b, o, s);
    }
    }
    proof! {
    fn builder() {
        let mut b = setup();
        let s = any_scalars();
        let o = Scalars::builder()
            .b(s.b).bt(s.bt).i8(s.i8).u8(s.u8).i16(s.i16).u16(s.u16).i32(s.i32).u32(s.u32).i64(s.i64).u64(s.u64)
            .f32(s.f32).f64(s.f64).e(s.e).w(s.w).fl(s.fl)
            .finish(&mut b);
        check_scalars(&b, o, s);
    }
    }
    proof! {
    fn defaults() {
        let mut b = setup();
        let s = Scalars::default();
        assert!(!s.b && s.bt && s.i8 == -128 && s.u8 == 255 && s.i16 == -300 && s.u16 == 65535 && s.i32 == i32::MIN && s.u32 == u32::MAX);
        assert!(s.i64 == i64::MIN && s.u64 == u64::MAX && s.f32 == 1.5 && s.f64 == -0.25 && s.e == Small::Big && s.w == Wide::C && s.fl == Flags::Blue);
        let o = Scalars::builder()
            .b_as_default().bt_as_default().i8_as_default().u8_as_default().i16_as_default().u16_as_default()
            .i32_as_default().u32_as_default().i64_as_default().u64_as_default().f32_as_default().f64_as_default()
            .e_as_default().w_as_default().fl_as_default()
            .finish(&mut b);
        table(&b, o, 0);
    }
    }
}

fn any_option<T>(f: fn() -> T) -> Option<T> {
    if kani::any() { Some(f()) } else { None }
}
fn any_optionals() -> Optionals {
    Optionals {
        b: any_option(kani::any), u8: any_option(kani::any), i16: any_option(kani::any), u32: any_option(kani::any),
        i64: any_option(kani::any), f32: any_option(kani::any), f64: any_option(kani::any), e: any_option(any_small),
        s: any_option(any_inner), o: any_option(any_outer), rs: any_inner(),
    }
}
fn check_optionals(b: &Builder, o: Offset<Optionals>, s: &Optionals) {
    let mut n = 1;
    macro_rules! check {
        ($slot:expr, $v:expr, $bytes:expr) => {
            if $v.is_some() {
                n += 1;
            }
            assert!(same($slot, $v.map($bytes)), "written if it is given");
        };
    }
    check!(0, s.b, |v| [v as u8]);
    check!(1, s.u8, |v| v.to_le_bytes());
    check!(2, s.i16, |v| v.to_le_bytes());
    check!(3, s.u32, |v| v.to_le_bytes());
    check!(4, s.i64, |v| v.to_le_bytes());
    check!(5, s.f32, |v| v.to_le_bytes());
    check!(6, s.f64, |v| v.to_le_bytes());
    check!(7, s.e, |v| (v as i8).to_le_bytes());
    check!(8, s.s, inner);
    check!(9, s.o, outer);
    assert!(same(10, Some(inner(s.rs))), "a required field is written");
    table(b, o, n);
    kani::cover!(n == 11);
}
mod optionals {
    use super::*;
    proof! {
    fn owned() {
        let mut b = setup();
        let s = any_optionals();
        let o = WriteAsOffset::prepare(&s, &mut b);
        check_optionals(&b, o, &s);
    }
    }
    proof! {
    fn builder() {
        let mut b = setup();
        let s = any_optionals();
        let o = Optionals::builder()
            .b(s.b).u8(s.u8).i16(s.i16).u32(s.u32).i64(s.i64).f32(s.f32).f64(s.f64).e(s.e).s(s.s).o(s.o).rs(s.rs)
            .finish(&mut b);
        check_optionals(&b, o, &s);
    }
    }
    proof! {
    fn nulls() {
        let mut b = setup();
        let rs = any_inner();
        let o = Optionals::builder()
            .b_as_null().u8_as_null().i16_as_null().u32_as_null().i64_as_null().f32_as_null().f64_as_null().e_as_null()
            .s_as_null().o_as_null().rs(rs)
            .finish(&mut b);
        assert!(same(10, Some(inner(rs))));
        table(&b, o, 1);
    }
    }
}

mod refs {
    use super::*;
    /// The tag and the value of a union
    fn is_union(slot: usize, want: Option<(u8, u32)>) -> bool {
        same(slot, want.map(|w| [w.0])) && is_offset(slot + 1, want.map(|w| w.1))
    }
    struct Args {
        name: Option<Offset<str>>,
        rname: Offset<str>,
        dname: &'static str,
        child: Option<Offset<Child>>,
        rchild: Offset<Child>,
    }
    fn args(b: &mut Builder) -> Args {
        let mut a = Args { name: Some(offset(b)), rname: offset(b), dname: if kani::any() { "dflt" } else { "dflu" }, child: Some(offset(b)), rchild: offset(b) };
        if kani::any() {
            a.name = None;
        }
        if kani::any() {
            a.child = None;
        }
        a
    }
    fn check(b: &Builder, o: Offset<Refs>, a: &Args, u: Option<(u8, u32)>, ru: (u8, u32)) {
        assert!(is_offset(0, a.name.map(position)), "name");
        assert!(is_offset(1, Some(position(a.rname))), "rname");
        let differs = a.dname.as_bytes()[3] == b'u';
        assert!(ghost().witness != 2 || (ghost().index != usize::MAX) == differs, "dname");
        assert!(is_offset(3, a.child.map(position)), "child");
        assert!(is_offset(4, Some(position(a.rchild))), "rchild");
        assert!(is_union(6, u), "u");
        assert!(is_union(8, Some(ru)), "ru");
        table(b, o, 4 + differs as usize + a.name.is_some() as usize + a.child.is_some() as usize + 2 * u.is_some() as usize);
    }
    proof! {
    fn create() {
        let mut b = setup();
        let a = args(&mut b);
        let (x, y): (Offset<Child>, Offset<str>) = (offset(&mut b), offset(&mut b));
        let (u, ru) = (Any::builder().child2(x).finish(&mut b), Any::builder().text(y).finish(&mut b));
        let u = if kani::any() { Some(u) } else { None };
        let o = Refs::create(&mut b, a.name, a.rname, a.dname, a.child, a.rchild, u, ru);
        check(&b, o, &a, u.map(|_| (5, position(x))), (3, position(y)));
    }
    }
    proof! {
    fn builder() {
        let mut b = setup();
        let a = args(&mut b);
        let (x, y): (Offset<Empty>, Offset<Outer>) = (offset(&mut b), offset(&mut b));
        let (u, ru) = (Any::builder().empty(x).finish(&mut b), Any::builder().out(y).finish(&mut b));
        let o = Refs::builder().name(a.name).rname(a.rname).dname(a.dname).child(a.child).rchild(a.rchild).u(u).ru(ru).finish(&mut b);
        check(&b, o, &a, Some((2, position(x))), (4, position(y)));
    }
    }
    proof! {
    fn nulls() {
        let mut b = setup();
        let mut a = args(&mut b);
        (a.name, a.child) = (None, None);
        let y: Offset<Child> = offset(&mut b);
        let ru = Any::builder().child(y).finish(&mut b);
        let o = Refs::builder().name_as_null().rname(a.rname).dname(a.dname).child_as_null().rchild(a.rchild).u_as_null().ru(ru).finish(&mut b);
        check(&b, o, &a, None, (1, position(y)));
    }
    }
    proof! {
    fn child() {
        let mut b = setup();
        let (id, name): (i32, Option<Offset<str>>) = (kani::any(), Some(offset(&mut b)));
        let name = if kani::any() { name } else { None };
        let o = if kani::any() { Child::create(&mut b, id, name) } else { Child::builder().id(id).name(name).finish(&mut b) };
        assert!(same(0, if id == -7 { None } else { Some(id.to_le_bytes()) }));
        assert!(is_offset(1, name.map(position)));
        table(&b, o, (id != -7) as usize + name.is_some() as usize);
    }
    }
    proof! {
    fn empty() {
        let mut b = setup();
        let o = WriteAsOffset::prepare(&Empty {}, &mut b);
        table(&b, o, 0);
    }
    }
    proof! {
    fn ids() {
        let mut b = setup();
        let (c, a, bb): (u16, u32, u8) = kani::any();
        let x: Offset<str> = offset(&mut b);
        let u = Any::builder().text(x).finish(&mut b);
        let u = if kani::any() { Some(u) } else { None };
        let o = if kani::any() {
            Ids::create(&mut b, c, a, u, bb)
        } else {
            Ids::builder().c(c).a(a).u(u).b(bb).finish(&mut b)
        };
        assert!(same(4, if c == 3 { None } else { Some(c.to_le_bytes()) }));
        assert!(same(0, if a == 1 { None } else { Some(a.to_le_bytes()) }));
        assert!(same(1, if bb == 2 { None } else { Some(bb.to_le_bytes()) }));
        assert!(is_union(2, u.map(|_| (3, position(x)))));
        table(&b, o, (c != 3) as usize + (a != 1) as usize + (bb != 2) as usize + 2 * u.is_some() as usize);
    }
    }
    proof! {
    fn aligned() {
        let mut b = setup();
        let s = Aligned { a: kani::any(), b: kani::any(), by: any_option(|| Byte { v: kani::any() }) };
        let o = WriteAsOffset::prepare(&s, &mut b);
        assert!(same(0, if s.a == 0 { None } else { Some([s.a]) }));
        assert!(same(1, if s.b == 0 { None } else { Some(s.b.to_le_bytes()) }));
        assert!(same(2, s.by.map(|s| [s.v, 0, 0, 0])));
        table(&b, o, (s.a != 0) as usize + (s.b != 0) as usize + s.by.is_some() as usize);
    }
    }
    proof! {
    fn vectors() {
        let mut b = setup();
        macro_rules! given {
            () => {{
                let o = offset(&mut b);
                if kani::any() { Some(o) } else { None }
            }};
        }
        let v = (given!(), given!(), given!(), given!(), given!(), given!(), given!(), given!(), given!(), given!(), given!());
        let r: Offset<[u32]> = offset(&mut b);
        let d: Offset<[u32]> = offset(&mut b);
        let o = Vectors::create(&mut b, v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, r, d, ());
        let mut n = 2;
        macro_rules! check {
            ($($slot:tt)*) => {
                $(
                    assert!(is_offset($slot, v.$slot.map(position)));
                    n += v.$slot.is_some() as usize;
                )*
            };
        }
        check!(0 1 2 3 4 5 6 7 8 9 10);
        assert!(is_offset(11, Some(position(r))) && is_offset(12, Some(position(d))));
        table(&b, o, n);
    }
    }
}

/// Elements of vectors, and structs by themselves
mod values {
    use super::*;
    macro_rules! elements {
        ($name:ident, $ty:ty, $any:expr, $n:expr, $bytes:expr) => {
            proof! {
            fn $name() {
                let v = [$any(), $any()];
                assert!(<$ty as VectorWrite<$ty>>::STRIDE == $n);
                let mut out = [MaybeUninit::new(0xaau8); 2 * $n];
                unsafe { <$ty as VectorWrite<$ty>>::write_values(&v, out.as_mut_ptr(), kani::any_where(|p: &u32| *p > 1 << 20)) };
                let bytes: fn($ty) -> [u8; $n] = $bytes;
                let (x, y) = (bytes(v[0]), bytes(v[1]));
                let mut i = 0;
                while i < $n {
                    assert!(unsafe { out[i].assume_init() } == x[i] && unsafe { out[$n + i].assume_init() } == y[i]);
                    i += 1;
                }
            }
            }
        };
    }
    elements!(small_, Small, any_small, 1, |v| (v as i8).to_le_bytes());
    elements!(wide_, Wide, any_wide, 8, |v| (v as u64).to_le_bytes());
    elements!(flags_, Flags, any_flags, 2, |v| (v as u16).to_le_bytes());
    elements!(inner_, Inner, any_inner, 12, inner);
    elements!(outer_, Outer, any_outer, 40, outer);
    proof! {
    fn tables() {
        let mut b = setup();
        let v: [Offset<Child>; 2] = [offset(&mut b), offset(&mut b)];
        let p: u32 = kani::any_where(|p: &u32| *p > 1 << 20);
        let mut out = [MaybeUninit::new(0u8); 8];
        assert!(<Child as VectorWrite<Offset<Child>>>::STRIDE == 4);
        unsafe { <Child as VectorWrite<Offset<Child>>>::write_values(&v, out.as_mut_ptr(), p) };
        let out: [u8; 8] = unsafe { core::mem::transmute(out) };
        assert!(u32::from_le_bytes([out[0], out[1], out[2], out[3]]) == p - position(v[0]));
        assert!(u32::from_le_bytes([out[4], out[5], out[6], out[7]]) == p - 4 - position(v[1]));
    }
    }
    proof! {
    fn structs() {
        let mut b = setup();
        let s = any_outer();
        let o: Offset<Outer> = WriteAsOffset::prepare(&s, &mut b);
        assert!(position(o) == b.len() as u32 && b.len() == 40);
        let (x, i) = (outer(s), kani::any_where(|i: &usize| *i < 40));
        assert!(b.as_slice()[i] == x[i]);
    }
    }
}
