//! The format, as the proofs of readers specify it.
use crate::probe::{le16, le32};

/// The specification: where the object and its vtable are, if the header is well formed.
pub struct Spec {
    pub object: u128,
    pub vtable: u128,
    pub size: u16,
}
pub fn open(b: &[u8], field: usize) -> Option<Spec> {
    let object = field as u128 + le32(b, field as u128)? as u128;
    let back = le32(b, object)? as i32;
    let vtable = object as i128 - back as i128;
    if vtable < 0 {
        return None;
    }
    let vtable = vtable as u128;
    let size = le16(b, vtable)?;
    if size < 4 || size % 2 == 1 || vtable + size as u128 > b.len() as u128 {
        return None;
    }
    Some(Spec {
        object,
        vtable,
        size,
    })
}
impl Spec {
    /// The entry of a field, 0 if absent
    pub fn slot(&self, b: &[u8], i: usize) -> u16 {
        let at = 4 + 2 * i as u128;
        if at + 2 <= self.size as u128 {
            le16(b, self.vtable + at).unwrap()
        } else {
            0
        }
    }
}

/// The specification of everything with a length prefix: where the contents are
pub fn prefixed(b: &[u8], offset: usize) -> Option<(usize, usize)> {
    let at = offset as u128 + le32(b, offset as u128)? as u128;
    let len = le32(b, at)?;
    Some((at as usize + 4, len as usize))
}

