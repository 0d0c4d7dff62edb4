//! Indexing a vector is indexing a slice.
use crate::vecs::*;
use core::ops::Bound;

fn any_bound() -> Bound<usize> {
    let i: usize = kani::any();
    match kani::any::<u8>() {
        0 => Bound::Included(i),
        1 => Bound::Excluded(i),
        _ => Bound::Unbounded,
    }
}

macro_rules! suite {
    ($m:ident, $ty:ident, $any:ident, $view:ident, $part:ident) => {
        mod $m {
            use super::*;

            #[kani::proof]
            #[kani::unwind(5)]
            fn range() {
                let v = $any();
                let (a, b): (usize, usize) = kani::any();
                kani::cover!(v.get(a..b).is_some() && a > 0 && b > a + 1);
                match v.get(a..b) {
                    Some(w) => $part(w, v, a, b),
                    None => assert!(a > b || b > v.len(), "a part of the vector is found"),
                }
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn range_from_to() {
                let v = $any();
                let a: usize = kani::any();
                match v.get(a..) {
                    Some(w) => $part(w, v, a, v.len()),
                    None => assert!(a > v.len()),
                }
                match v.get(..a) {
                    Some(w) => $part(w, v, 0, a),
                    None => assert!(a > v.len()),
                }
                $part(v.get(..).unwrap(), v, 0, v.len());
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn range_inclusive() {
                let v = $any();
                let (a, b): (usize, usize) = kani::any();
                match v.get(a..=b) {
                    Some(w) => $part(w, v, a, b + 1),
                    None => assert!(b >= v.len() || a > b + 1),
                }
                match v.get(..=b) {
                    Some(w) => $part(w, v, 0, b + 1),
                    None => assert!(b >= v.len()),
                }
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn bounds() {
                let v = $any();
                let (s, e) = (any_bound(), any_bound());
                // Mathematical integers, so that there is no overflow to worry about
                let a = match s {
                    Bound::Included(i) => i as u128,
                    Bound::Excluded(i) => i as u128 + 1,
                    Bound::Unbounded => 0,
                };
                let b = match e {
                    Bound::Included(i) => i as u128 + 1,
                    Bound::Excluded(i) => i as u128,
                    Bound::Unbounded => v.len() as u128,
                };
                match v.get((s, e)) {
                    Some(w) => {
                        assert!(a <= b && b <= v.len() as u128);
                        $part(w, v, a as usize, b as usize)
                    }
                    None => assert!(a > b || b > v.len() as u128),
                }
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn element() {
                let v = $any();
                let i: usize = kani::any();
                assert!(v.get(i).is_some() == (i < v.len()));
                assert!(v.is_empty() == (v.len() == 0));
                if i < v.len() {
                    assert!(Some(unsafe { v.get_unchecked(i) }.id()) == $view(v, i));
                }
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn unchecked() {
                let v = $any();
                let (a, b): (usize, usize) = kani::any();
                kani::assume(a <= b && b <= v.len());
                unsafe {
                    match kani::any::<u8>() {
                        0 => $part(v.get_unchecked(a..b), v, a, b),
                        1 => $part(v.get_unchecked(a..), v, a, v.len()),
                        2 => $part(v.get_unchecked(..b), v, 0, b),
                        _ => $part(v.get_unchecked(..), v, 0, v.len()),
                    }
                }
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn unchecked_inclusive() {
                let v = $any();
                let (a, b): (usize, usize) = kani::any();
                kani::assume(a <= b && b <= v.len());
                unsafe {
                    match kani::any::<u8>() {
                        0 => {
                            kani::assume(b < v.len());
                            $part(v.get_unchecked(a..=b), v, a, b + 1)
                        }
                        _ => {
                            kani::assume(b < v.len());
                            $part(v.get_unchecked(..=b), v, 0, b + 1)
                        }
                    }
                }
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn unchecked_bounds() {
                let v = $any();
                let (a, b): (usize, usize) = kani::any();
                kani::assume(a <= b && b <= v.len());
                unsafe {
                    match kani::any::<u8>() {
                        0 => $part(v.get_unchecked((Bound::Included(a), Bound::Excluded(b))), v, a, b),
                        1 => {
                            kani::assume(a < b);
                            $part(
                                v.get_unchecked((Bound::Excluded(a), Bound::Included(b - 1))),
                                v,
                                a + 1,
                                b,
                            )
                        }
                        _ => $part(v.get_unchecked((Bound::Unbounded, Bound::Unbounded)), v, 0, v.len()),
                    }
                }
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn ends() {
                let v = $any();
                let n = v.len();
                assert!(v.first().map(Elem::id) == $view(v, 0));
                assert!(v.last().map(Elem::id) == if n == 0 { None } else { $view(v, n - 1) });
                match v.split_first() {
                    Some((e, w)) => {
                        assert!(Some(e.id()) == $view(v, 0));
                        $part(w, v, 1, n);
                    }
                    None => assert!(n == 0),
                }
                match v.split_last() {
                    Some((e, w)) => {
                        assert!(Some(e.id()) == $view(v, n - 1));
                        $part(w, v, 0, n - 1);
                    }
                    None => assert!(n == 0),
                }
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn split() {
                let v = $any();
                let mid: usize = kani::any();
                match v.split_at(mid) {
                    Some((l, r)) => {
                        $part(l, v, 0, mid);
                        $part(r, v, mid, v.len());
                        let (l, r) = unsafe { v.split_at_unchecked(mid) };
                        $part(l, v, 0, mid);
                        $part(r, v, mid, v.len());
                    }
                    None => assert!(mid > v.len()),
                }
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn empty() {
                let v = <$ty>::new_empty();
                let i: usize = kani::any();
                assert!(v.is_empty() && v.len() == 0 && v.get(i).is_none() && v.iter().next().is_none());
                assert!(v.get(i..).is_some() == (i == 0));
            }
        }
    };
}
suite!(vector, V, any_v, view_v, part_v);
suite!(union_vector, U, any_u, view_u, part_u);

/// Collecting a vector: bounded by its length
mod collect_bounded {
    use super::*;
    use crate::probe::*;
    use planus::{errors, SliceWithStartOffset, TableRead, TableReadUnionVector, UnionVector, Vector};

    const LONGEST: u8 = if cfg!(feature = "deep") { 3 } else { 2 };
    /// Two vectors of the same length (at most `LONGEST`) next to each other
    fn small() -> SliceWithStartOffset<'static> {
        let mut data: [u8; 40] = kani::any();
        let n: u8 = kani::any();
        kani::assume(n <= LONGEST);
        data[..16].copy_from_slice(&[8, 0, 0, 0, 8, 0, 0, 0, n, 0, 0, 0, n, 0, 0, 0]);
        bounded_buffer(Box::leak(Box::new(data)))
    }

    #[derive(Copy, Clone)]
    struct Conv(Id);
    #[derive(Copy, Clone)]
    struct Bad;
    impl From<Bad> for errors::Error {
        fn from(_: Bad) -> Self {
            errors::Error {
                source_location: errors::ErrorLocation { type_: "", method: "", byte_offset: 7 },
                error_kind: errors::ErrorKind::MissingRequired,
            }
        }
    }
    impl TryFrom<El<8>> for Conv {
        type Error = Bad;
        fn try_from(e: El<8>) -> core::result::Result<Self, Bad> {
            if e.pos % 2 == 1 { Err(Bad) } else { Ok(Conv(e.id())) }
        }
    }
    impl From<Un> for Conv {
        fn from(e: Un) -> Self {
            Conv((e.tag, e.pos))
        }
    }
    #[kani::proof]
    #[cfg_attr(feature = "deep", kani::unwind(5))]
    #[cfg_attr(not(feature = "deep"), kani::unwind(4))]
    fn to_vec() {
        let v: Vector<'static, El<8>> = TableRead::from_buffer(small(), 0).ok().unwrap();
        let (a, b) = (v.to_vec::<Conv>(), planus::alloc::vec::Vec::<Conv>::try_from(v));
        for r in [a, b] {
            match r {
                Ok(o) => {
                    assert!(o.len() == v.len());
                    let i: usize = kani::any();
                    assert!(o.get(i).map(|c| c.0) == view_v(v, i));
                }
                Err(_) => assert!(!v.is_empty() && v.first().unwrap().pos % 2 == 1),
            }
        }
    }
    #[kani::proof]
    #[cfg_attr(feature = "deep", kani::unwind(5))]
    #[cfg_attr(not(feature = "deep"), kani::unwind(4))]
    fn to_vec_union() {
        let v: UnionVector<'static, Un> =
            TableReadUnionVector::from_buffer(small(), 0, 4).ok().unwrap();
        let i: usize = kani::any();
        match v.to_vec::<Conv>() {
            Ok(o) => {
                assert!(o.len() == v.len());
                assert!(o.get(i).map(|c| c.0) == view_u(v, i));
                kani::cover!(o.len() == 2);
            }
            Err(_) => {
                let mut bad = false;
                for e in v.iter() {
                    bad |= e.is_err();
                }
                assert!(bad, "only fails if an element fails");
            }
        }
    }
}
