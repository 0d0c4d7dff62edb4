use array_init_cursor::Cursor;
use core::mem::MaybeUninit;

/// What an array is filled with. `LIVE` counts the values that exist, less those dropped.
struct Counted(u16);
static mut DROPPED: u64 = 0x9e37_79b9_85eb_ca6b;
impl Drop for Counted {
    fn drop(&mut self) {
        unsafe { DROPPED += 1 }
    }
}
trait Value {
    type Key: kani::Arbitrary + Copy + PartialEq;
    fn new(k: Self::Key) -> Self;
    fn key(&self) -> Self::Key;
}
macro_rules! plain {
    ($($t:ty),*) => {
        $(impl Value for $t {
            type Key = $t;
            fn new(k: $t) -> $t {
                k
            }
            fn key(&self) -> $t {
                *self
            }
        })*
    };
}
plain!(u8, u32, u64, (u8, u16), ());
impl Value for Counted {
    type Key = u16;
    fn new(k: u16) -> Self {
        Counted(k)
    }
    fn key(&self) -> u16 {
        self.0
    }
}

fn blank<T, const N: usize>() -> [MaybeUninit<T>; N] {
    unsafe { MaybeUninit::uninit().assume_init() }
}
/// The array holds these values, and none was dropped on the way
fn filled<T: Value, const N: usize>(a: [MaybeUninit<T>; N], keys: &[T::Key; N], dropped: u64) {
    let mut i = 0;
    while i < N {
        assert!(unsafe { a[i].assume_init_ref() }.key() == keys[i], "the i-th value is at the i-th position");
        i += 1;
    }
    assert!(unsafe { DROPPED } == dropped, "no value is dropped");
}
fn part<T: Value, const L: usize>(keys: &[T::Key], from: usize) -> [T; L] {
    core::array::from_fn(|i| T::new(keys[from + i]))
}

/// Every way to use one cursor, for an array of N = L + R values
fn split<T: Value, const N: usize, const L: usize, const R: usize>() {
    let keys: [T::Key; N] = kani::any();
    let dropped = unsafe { DROPPED };
    // Finished as a whole
    let mut a = blank::<T, N>();
    Cursor::new(&mut a).finish(part(&keys, 0));
    filled(a, &keys, dropped);
    // In two parts, the second one first or last
    let mut a = blank::<T, N>();
    let (l, r) = Cursor::new(&mut a).split::<L, R>();
    if kani::any() {
        l.finish(part(&keys, 0));
        r.finish(part(&keys, L));
    } else {
        r.finish(part(&keys, L));
        l.finish(part(&keys, 0));
    }
    filled(a, &keys, dropped);
    // One after the other
    let mut a = blank::<T, N>();
    Cursor::new(&mut a).assert_size::<N>().write::<L, R>(part(&keys, 0)).finish(part(&keys, L));
    filled(a, &keys, dropped);
    // A full part, then nothing
    let mut a = blank::<T, N>();
    let rest: Cursor<'_, T, 0> = Cursor::new(&mut a).write::<N, 0>(part(&keys, 0));
    drop(rest);
    filled(a, &keys, dropped);
}
/// In four parts
fn nested<T: Value, const N: usize, const L: usize, const R: usize, const A: usize, const B: usize, const C: usize, const D: usize>() {
    let keys: [T::Key; N] = kani::any();
    let dropped = unsafe { DROPPED };
    let mut a = blank::<T, N>();
    let (l, r) = Cursor::new(&mut a).split::<L, R>();
    let ((x, y), (z, w)) = (l.split::<A, B>(), r.split::<C, D>());
    w.finish(part(&keys, L + C));
    y.finish(part(&keys, A));
    x.finish(part(&keys, 0));
    z.finish(part(&keys, L));
    filled(a, &keys, dropped);
}

macro_rules! types {
    ($($name:ident: $t:ty)*) => {
        $(mod $name {
            use super::*;
            #[kani::proof]
            #[kani::unwind(10)]
            fn splits() {
                split::<$t, 0, 0, 0>();
                split::<$t, 1, 0, 1>();
                split::<$t, 1, 1, 0>();
                split::<$t, 2, 1, 1>();
                split::<$t, 3, 1, 2>();
                split::<$t, 3, 2, 1>();
                split::<$t, 3, 3, 0>();
                split::<$t, 4, 0, 4>();
                split::<$t, 8, 3, 5>();
                split::<$t, 8, 7, 1>();
            }
            #[kani::proof]
            #[kani::unwind(10)]
            fn nests() {
                nested::<$t, 4, 2, 2, 1, 1, 1, 1>();
                nested::<$t, 5, 3, 2, 3, 0, 0, 2>();
                nested::<$t, 7, 3, 4, 1, 2, 3, 1>();
            }
        })*
    };
}
types!(u8_: u8 u32_: u32 u64_: u64 pair: (u8, u16) unit: () counted: Counted);

/// Values that were written are still there, to be dropped once, by whoever owns the array
#[kani::proof]
#[kani::unwind(10)]
fn dropped_once() {
    let dropped = unsafe { DROPPED };
    let mut a = blank::<Counted, 3>();
    Cursor::new(&mut a).write::<1, 2>([Counted(1)]).finish([Counted(2), Counted(3)]);
    let a: [Counted; 3] = unsafe { core::mem::transmute(a) };
    drop(a);
    assert!(unsafe { DROPPED } == dropped + 3);
}
/// An empty cursor may be dropped
#[kani::proof]
fn empty() {
    drop(Cursor::new(&mut blank::<u32, 0>()));
    drop(Cursor::new(&mut blank::<(), 0>()));
}

macro_rules! panics {
    ($($name:ident: $body:expr;)*) => {
        $(#[kani::proof]
        #[kani::should_panic]
        fn $name() {
            $body
        })*
    };
}
panics! {
    panics_1: drop(Cursor::new(&mut blank::<u8, 1>()));
    panics_3: drop(Cursor::new(&mut blank::<u64, 3>()));
    panics_8: drop(Cursor::new(&mut blank::<u8, 8>()));
    panics_40: drop(Cursor::new(&mut blank::<u8, 40>()));
    panics_unit: drop(Cursor::new(&mut blank::<(), 2>()));
    panics_rest: { let _ = Cursor::new(&mut blank::<u8, 3>()).write::<2, 1>([1, 2]); };
    panics_left: { let mut a = blank::<u8, 3>(); let (_l, r) = Cursor::new(&mut a).split::<1, 2>(); r.finish([1, 2]); };
    panics_right: { let mut a = blank::<u8, 3>(); let (l, _r) = Cursor::new(&mut a).split::<1, 2>(); l.finish([1]); };
    panics_short: { Cursor::new(&mut blank::<u8, 3>()).assert_size::<3>(); };
}
