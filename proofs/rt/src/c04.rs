//! The iterators of a vector are those of a slice.
//!
//! Every proof takes an iterator over a vector of any length, lets it make one arbitrary step,
//! and compares what can be observed of what is left with the specification over `(v, a, b)`:
//! the items numbered `a..b` are left.
//!
//! The arithmetic of `chunks` is beyond the solver for symbolic chunk sizes: `bounded` repeats the
//! proofs for all vectors of up to `SMALL` elements, all small chunk sizes and all sizes that are
//! larger than the vector, and two steps.
use crate::vecs::*;


/// One step of a double ended iterator with items numbered `a..b`: the number of the item it must
/// return
macro_rules! step {
    ($it:ident, $op:expr, $n:expr, $a:ident, $b:ident) => {{
        let n: usize = $n;
        let left = $b - $a;
        match $op {
            0 => {
                let want = if left > 0 { Some($a) } else { None };
                $a += want.is_some() as usize;
                ($it.next(), want)
            }
            1 => {
                let want = if left > 0 { Some($b - 1) } else { None };
                $b -= want.is_some() as usize;
                ($it.next_back(), want)
            }
            2 => {
                let want = if n < left { Some($a + n) } else { None };
                $a = if n < left { $a + n + 1 } else { $b };
                ($it.nth(n), want)
            }
            3 => {
                let want = if n < left { Some($b - 1 - n) } else { None };
                $b = if n < left { $b - 1 - n } else { $a };
                ($it.nth_back(n), want)
            }
            _ => ($it.clone().last(), if left > 0 { Some($b - 1) } else { None }),
        }
    }};
}

macro_rules! iter_suite {
    ($m:ident, $any:ident, $small:ident, $id:ident, $part:ident) => {
        mod $m {
            use super::*;

            /// Vectors of any length
            mod any_len {
                use super::*;

                macro_rules! iter {
                    ($name:ident, $op:expr) => {
                        #[kani::proof]
                        #[kani::unwind(5)]
                        fn $name() {
                            let v = $any();
                            let mut it = v.iter();
                            let (mut a, mut b) = (0, v.len());
                            let (got, want) = step!(it, $op, kani::any(), a, b);
                            kani::cover!(want.is_some());
                            assert!(got.map(Elem::id) == want.map($id), "the item");
                            assert!(it.len() == b - a && it.size_hint() == (b - a, Some(b - a)));
                            assert!(it.clone().count() == b - a);
                            let j = kani::any();
                            assert!(it.nth(j).map(Elem::id) == if j < b - a { Some($id(a + j)) } else { None }, "what is left");
                        }
                    };
                }
                iter!(iter_next, 0);
                iter!(iter_next_back, 1);
                iter!(iter_nth, 2);
                iter!(iter_nth_back, 3);
                iter!(iter_last, 4);

                macro_rules! windows {
                    ($name:ident, $op:expr) => {
                        #[kani::proof]
                        #[kani::unwind(5)]
                        fn $name() {
                            let v = $any();
                            let size: usize = kani::any();
                            kani::assume(size > 0);
                            let mut it = v.windows(size);
                            let (mut a, mut b) = (0, if v.len() >= size { v.len() - size + 1 } else { 0 });
                            assert!(it.len() == b && it.clone().count() == b);
                            let (got, want) = step!(it, $op, kani::any(), a, b);
                            kani::cover!(want.is_some());
                            match (got, want) {
                                (Some(g), Some(i)) => $part(g, v.len(), i, i + size),
                                (None, None) => (),
                                _ => panic!("there is an item exactly if one is left"),
                            }
                            assert!(it.len() == b - a && it.size_hint() == (b - a, Some(b - a)));
                        }
                    };
                }
                windows!(windows_next, 0);
                windows!(windows_next_back, 1);
                windows!(windows_nth, 2);
                windows!(windows_nth_back, 3);
                windows!(windows_last, 4);

                #[kani::proof]
                #[kani::unwind(5)]
                fn chunks_next() {
                    let v = $any();
                    let (k, n): (usize, usize) = (kani::any(), v.len());
                    kani::assume(k > 0);
                    match v.chunks(k).next() {
                        Some(g) => $part(g, n, 0, if k < n { k } else { n }),
                        None => assert!(n == 0),
                    }
                    match v.rchunks(k).next() {
                        Some(g) => $part(g, n, if k < n { n - k } else { 0 }, n),
                        None => assert!(n == 0),
                    }
                }
            }

            mod bounded {
                use super::*;

                /// Small numbers and very large ones
                fn number() -> usize {
                    let n: u8 = kani::any();
                    kani::assume(n < 12);
                    if kani::any() { n as usize } else { usize::MAX - n as usize }
                }
                fn size() -> usize {
                    let n: u8 = kani::any();
                    kani::assume(n > 0 && n < 6);
                    if kani::any() { n as usize } else { usize::MAX - n as usize }
                }

                fn iter(op: u8) {
                    let v = $small();
                    let mut it = v.iter();
                    let (mut a, mut b) = (0, v.len());
                    let (got, want) = step!(it, op, number(), a, b);
                    assert!(got.map(Elem::id) == want.map($id), "the item");
                    let second: u8 = kani::any();
                    let (got, want) = step!(it, second, number(), a, b);
                    kani::cover!(want.is_some());
                    assert!(got.map(Elem::id) == want.map($id), "the second item");
                    assert!(it.len() == b - a && it.clone().count() == b - a);
                }

                /// The iterators over parts: `count` items, the `i`th one is `v[lo(i)..hi(i)]`
                macro_rules! parts {
                    ($n:expr, $mk:expr, $op:expr, $count:expr, $lo:expr, $hi:expr) => {{
                        let mut it = $mk;
                        let (mut a, mut b) = (0, $count);
                        assert!(it.len() == b && it.size_hint() == (b, Some(b)), "the number of items");
                        let (got, want) = step!(it, $op, number(), a, b);
                        match (got, want) {
                            (Some(g), Some(i)) => $part(g, $n, $lo(i), $hi(i)),
                            (None, None) => (),
                            _ => panic!("there is an item exactly if one is left"),
                        }
                        assert!(it.len() == b - a && it.size_hint() == (b - a, Some(b - a)));
                        // The quick tier looks at what is left from both ends only
                        let (got, want) = if cfg!(feature = "deep") {
                            let second: u8 = kani::any();
                            step!(it, second, number(), a, b)
                        } else if kani::any() {
                            step!(it, 0, 0, a, b)
                        } else {
                            step!(it, 1, 0, a, b)
                        };
                        kani::cover!(want.is_some());
                        match (got, want) {
                            (Some(g), Some(i)) => $part(g, $n, $lo(i), $hi(i)),
                            (None, None) => (),
                            _ => panic!("there is an item exactly if one is left"),
                        }
                        assert!(it.len() == b - a, "the number of items that are left");
                        it
                    }};
                }

                fn windows(op: u8) {
                    let v = $small();
                    let (n, k) = (v.len(), size());
                    let count = if n >= k { n - k + 1 } else { 0 };
                    parts!(n, v.windows(k), op, count, |i| i, |i| i + k);
                }
                /// `k` as a number the specification can multiply
                fn spec_size(k: usize) -> usize {
                    if k > 2 * SMALL { 2 * SMALL } else { k }
                }
                fn chunks(op: u8) {
                    let v = $small();
                    let (n, k) = (v.len(), size());
                    let s = spec_size(k);
                    parts!(n, v.chunks(k), op, (n + s - 1) / s, |i: usize| i * s, |i: usize| n.min(i * s + s));
                }
                fn rchunks(op: u8) {
                    let v = $small();
                    let (n, k) = (v.len(), size());
                    let s = spec_size(k);
                    parts!(n, v.rchunks(k), op, (n + s - 1) / s, |i: usize| n.saturating_sub(i * s + s), |i: usize| n - i * s);
                }
                fn chunks_exact(op: u8) {
                    let v = $small();
                    let (n, k) = (v.len(), size());
                    let s = spec_size(k);
                    let it = parts!(n, v.chunks_exact(k), op, n / s, |i: usize| i * s, |i: usize| i * s + s);
                    $part(it.remainder(), n, n / s * s, n);
                }
                fn rchunks_exact(op: u8) {
                    let v = $small();
                    let (n, k) = (v.len(), size());
                    let s = spec_size(k);
                    let it = parts!(n, v.rchunks_exact(k), op, n / s, |i: usize| n - i * s - s, |i: usize| n - i * s);
                    $part(it.remainder(), n, 0, n % s);
                }
                macro_rules! proofs {
                    ($f:ident, $next:ident, $back:ident, $nth:ident, $nth_back:ident) => {
                        #[kani::proof]
                        #[kani::unwind(5)]
                        fn $next() { $f(0) }
                        #[kani::proof]
                        #[kani::unwind(5)]
                        fn $back() { $f(1) }
                        #[kani::proof]
                        #[kani::unwind(5)]
                        fn $nth() { $f(2) }
                        #[kani::proof]
                        #[kani::unwind(5)]
                        fn $nth_back() { $f(3) }
                    };
                }
                proofs!(iter, iter_next, iter_next_back, iter_nth, iter_nth_back);
                proofs!(windows, windows_next, windows_next_back, windows_nth, windows_nth_back);
                proofs!(chunks, chunks_next, chunks_next_back, chunks_nth, chunks_nth_back);
                proofs!(rchunks, rchunks_next, rchunks_next_back, rchunks_nth, rchunks_nth_back);
                proofs!(chunks_exact, chunks_exact_next, chunks_exact_next_back, chunks_exact_nth, chunks_exact_nth_back);
                proofs!(rchunks_exact, rchunks_exact_next, rchunks_exact_next_back, rchunks_exact_nth, rchunks_exact_nth_back);
            }
        }
    };
}
iter_suite!(vector, fixed_v, small_v, fixed_id_v, fixed_part_v);
iter_suite!(union_vector, fixed_u, small_u, fixed_id_u, fixed_part_u);
