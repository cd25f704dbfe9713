//! native strings and byte arrays
use crate::ops::*;
use crate::spec::*;
use crate::writing::*;
use cbored::*;

pub fn content(v: &Bytes<'_>) -> Vec<u8> {
    let mut out = Vec::new();
    match v {
        Bytes::Imm(c) => out.extend_from_slice(c.as_slice()),
        Bytes::Chunks(l) => {
            for c in l {
                out.extend_from_slice(c.as_slice());
            }
        }
    }
    out
}
pub fn text_content(v: &Text<'_>) -> Vec<u8> {
    let mut out = Vec::new();
    match v {
        Text::Imm(c) => out.extend_from_slice(c.as_str().as_bytes()),
        Text::Chunks(l) => {
            for c in l {
                out.extend_from_slice(c.as_str().as_bytes());
            }
        }
    }
    out
}
pub fn bytes_to_vec(d: &[u8]) {
    let v = some_bytes(d);
    same(C23, &v.to_vec(), &content(&v));
}
pub fn bytes_len(d: &[u8]) {
    let v = some_bytes(d);
    let n = content(&v).len();
    prove(C23, v.len() == n);
}
pub fn text_to_string(d: &[u8]) {
    let v = some_text(d);
    same(C23, v.to_string().as_bytes(), text_content(&v).as_slice());
}
pub fn text_to_chunks(d: &[u8]) {
    let v = some_text(d);
    let l = v.to_str_chunks();
    match &v {
        Text::Imm(c) => {
            prove(C23, l.len() == 1);
            same(C23, l[0].as_bytes(), c.as_str().as_bytes());
        }
        Text::Chunks(k) => {
            prove(C23, l.len() == k.len());
            let i: usize = any();
            assume(i < l.len());
            same(C23, l[i].as_bytes(), k[i].as_str().as_bytes());
        }
    }
}

/// with models of Reader::bytes and Reader::text
pub mod decode {
    use super::*;
    fn refused(e: &DecodeError) {
        prove(C23, ghas::<2>());
        match e.error() {
            DecodeErrorKind::ReaderError(ReaderError::BytesChunksInBytesChunks) => (),
            DecodeErrorKind::ReaderError(ReaderError::TextChunksInTextChunks) => (),
            _ => fail(C23, "the error of the reader is not reported"),
        }
    }
    pub fn vec(d: &[u8]) {
        gset::<&[u8], 0>(d);
        let mut r = Reader::new(d);
        match <Vec<u8> as Decode>::decode(&mut r) {
            Ok(v) => same(C23, &v, &content(&gget::<Bytes<'_>, 1>())),
            Err(e) => refused(&e),
        }
    }
    pub fn string(d: &[u8]) {
        gset::<&[u8], 0>(d);
        let mut r = Reader::new(d);
        match String::decode(&mut r) {
            Ok(v) => same(C23, v.as_bytes(), text_content(&gget::<Text<'_>, 1>()).as_slice()),
            Err(e) => refused(&e),
        }
    }
    fn array<const N: usize>(d: &[u8]) {
        gset::<&[u8], 0>(d);
        let mut r = Reader::new(d);
        match <[u8; N] as Decode>::decode(&mut r) {
            Ok(v) => same(C23, v.as_slice(), content(&gget::<Bytes<'_>, 1>()).as_slice()),
            Err(e) => {
                if ghas::<2>() {
                    refused(&e);
                    return;
                }
                let n = content(&gget::<Bytes<'_>, 1>()).len();
                match e.error() {
                    DecodeErrorKind::UnexpectedLength { expected, got } => {
                        prove(C23, n != N);
                        prove(C23, *expected == N);
                        prove(C23, *got == n);
                    }
                    _ => fail(C23, "a wrong length is not reported as such"),
                }
            }
        }
    }
    pub fn array_0(d: &[u8]) {
        array::<0>(d)
    }
    pub fn array_1(d: &[u8]) {
        array::<1>(d)
    }
    pub fn array_4(d: &[u8]) {
        array::<4>(d)
    }
    pub fn array_32(d: &[u8]) {
        array::<32>(d)
    }
}

macro_rules! encode {
    ($name:ident, $v:ident : $t:ty, $m:expr, $b:expr) => {
        pub fn $name($v: $t, prefix: Vec<u8>) {
            let mut out = prefix.clone();
            let b: &[u8] = $b;
            shortest(&mut out, $m, b.len() as u64);
            out.extend_from_slice(b);
            let mut w = Writer::new_from_vec(prefix);
            $v.encode(&mut w);
            same(C23, &w.finalize(), &out);
        }
    };
}
/// the shortest header of a number
pub fn shortest(out: &mut Vec<u8>, major: u8, n: u64) {
    if n < 24 {
        out.push(major * 32 + n as u8);
    } else if n <= 0xff {
        out.push(major * 32 + 24);
        out.push(n as u8);
    } else if n <= 0xffff {
        out.push(major * 32 + 25);
        out.extend_from_slice(&(n as u16).to_be_bytes());
    } else if n <= 0xffff_ffff {
        out.push(major * 32 + 26);
        out.extend_from_slice(&(n as u32).to_be_bytes());
    } else {
        out.push(major * 32 + 27);
        out.extend_from_slice(&n.to_be_bytes());
    }
}
encode!(encode_string, v: String, 3, v.as_bytes());
encode!(encode_str, v: &str, 3, v.as_bytes());
encode!(encode_vec, v: Vec<u8>, 2, v.as_slice());
encode!(encode_slice, v: &[u8], 2, v);
encode!(encode_array_0, v: [u8; 0], 2, &v);
encode!(encode_array_1, v: [u8; 1], 2, &v);
encode!(encode_array_32, v: [u8; 32], 2, &v);
