//! the bytes that the elements of a vector stand for (used by the analysis to state that a vector
//! that is being filled holds the parts of a buffer, one after the other)
use crate::writing::put;
use cbored::*;

pub fn bytes_chunk(c: &BytesData<'_>) -> Vec<u8> {
    let mut v = Vec::new();
    put(&mut v, 2, c.value());
    v.extend_from_slice(c.as_slice());
    v
}
pub fn text_chunk(c: &TextData<'_>) -> Vec<u8> {
    let mut v = Vec::new();
    put(&mut v, 3, c.value());
    v.extend_from_slice(c.as_str().as_bytes());
    v
}
pub fn element(c: &&CborSlice) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(c.as_ref());
    v
}
pub fn pair(c: &(&CborSlice, &CborSlice)) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(c.0.as_ref());
    v.extend_from_slice(c.1.as_ref());
    v
}
