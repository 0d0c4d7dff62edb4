//! The header of a finished buffer.
use crate::{states::*, window::*};
use planus::{Builder, Offset};

fn check(s: &[u8], id: Option<[u8; 4]>) -> usize {
    if let Some(id) = id {
        assert!(s[4] == id[0] && s[5] == id[1] && s[6] == id[2] && s[7] == id[3], "the identifier is at byte 4");
    }
    u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as usize
}

state_proof! {
#[kani::unwind(5)]
fn header() {
    // The root is any object written at any time
    let mut b = builder(any_state());
    let root: Offset<()> = b.current_offset();
    let at = b.len();
    unsafe { b.write_with(size(), mask(), |_, _| {}) };
    let (id, after) = (any_id(), b.len());
    let s = b.finish(root, id);
    let total = s.len();
    assert!(total >= after + if id.is_some() { 8 } else { 4 }, "the header is in front of everything");
    assert!(check(s, id) == total - at, "the root offset leads to the root");
    let n = b.len();
    assert!(n == total && b.as_slice().len() == total, "the same bytes as later from the builder");
    kani::cover!(id.is_some() && after > at);
    core::mem::forget(b);
}
}

const W: usize = 96;
window_proof! {
#[kani::unwind(17)]
fn root_contents() {
    let mut win = [0; W];
    let mut b = any_builder(&mut win);
    let x: u64 = kani::any();
    let n: u8 = kani::any();
    unsafe {
        b.write_with(8, 7, |_, bytes| {
            for i in 0..8 {
                bytes[i].write(x.to_le_bytes()[i]);
            }
        });
    }
    let root: Offset<()> = b.current_offset();
    // Something else behind it
    kani::assume(n <= 9);
    unsafe { b.write_with(n as usize, if kani::any() { 3 } else { 0 }, |_, _| {}) };
    let id = any_id();
    let s = b.finish(root, id);
    let at = check(s, id);
    let mut got = [0; 8];
    for i in 0..8 {
        got[i] = s[at + i];
    }
    assert!(u64::from_le_bytes(got) == x, "the root is read through its offset");
}
}

state_proof! {
#[kani::unwind(5)]
fn owned_root() {
    // A root that is written while finishing
    struct Root;
    impl planus::WriteAsOffset<()> for Root {
        fn prepare(&self, b: &mut Builder) -> Offset<()> {
            unsafe { b.write_with(8, 7, |_, _| {}) };
            b.current_offset()
        }
    }
    let mut b = builder(any_state());
    let id = any_id();
    let before = b.len();
    let s = b.finish(Root, id);
    let (total, root) = (s.len(), check(s, id));
    assert!(root < total && total - root >= before + 8 && total - root < before + 8 + 8 && root % 8 == 0);
    core::mem::forget(b);
}
}
