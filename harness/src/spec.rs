//! What RFC 8949 says, in plain Rust
use crate::ops::*;
use cbored::*;

pub const POSITIVE: u8 = 0;
pub const NEGATIVE: u8 = 1;
pub const BYTES: u8 = 2;
pub const TEXT: u8 = 3;
pub const ARRAY: u8 = 4;
pub const MAP: u8 = 5;
pub const TAG: u8 = 6;
pub const FALSE: u8 = 7;
pub const TRUE: u8 = 8;
pub const NULL: u8 = 9;
pub const UNDEFINED: u8 = 10;
pub const FLOAT: u8 = 11;
pub const BYTE: u8 = 12;
pub const BREAK: u8 = 13;

/// the header of an element
#[derive(Clone, Copy)]
pub struct H {
    pub kind: u8,
    /// size of the header in bytes
    pub adv: usize,
    /// the argument
    pub val: u64,
    /// indefinite length
    pub indef: bool,
}

pub enum E {
    /// not a lead byte at all
    Reserved(u8),
    /// not allowed to be indefinite
    Indefinite(u8),
    MissingLead,
    /// the argument is not there
    MissingArg { need: usize, got: usize },
}

/// kind of the lead byte
pub fn kind_of(b: u8) -> Result<u8, E> {
    let major = b / 32;
    let ai = b % 32;
    if major == 7 {
        if ai < 20 || ai == 24 {
            return Ok(BYTE);
        }
        if ai == 20 {
            return Ok(FALSE);
        }
        if ai == 21 {
            return Ok(TRUE);
        }
        if ai == 22 {
            return Ok(NULL);
        }
        if ai == 23 {
            return Ok(UNDEFINED);
        }
        if ai < 28 {
            return Ok(FLOAT);
        }
        if ai < 31 {
            return Err(E::Reserved(b));
        }
        return Ok(BREAK);
    }
    if ai >= 28 && ai < 31 {
        return Err(E::Reserved(b));
    }
    if ai == 31 && (major == 0 || major == 1 || major == 6) {
        return Err(E::Indefinite(b));
    }
    Ok(major)
}

/// number of argument bytes that follow the lead byte
pub fn extra_of(b: u8) -> usize {
    match b % 32 {
        24 => 1,
        25 => 2,
        26 => 4,
        27 => 8,
        _ => 0,
    }
}

pub fn header_at(d: &[u8], i: usize) -> Result<H, E> {
    if i >= d.len() {
        return Err(E::MissingLead);
    }
    let b = d[i];
    let kind = kind_of(b)?;
    let n = extra_of(b);
    let rem = d.len() - i - 1;
    if rem < n {
        return Err(E::MissingArg { need: n, got: rem });
    }
    let val = match n {
        0 => (b % 32) as u64,
        1 => d[i + 1] as u64,
        2 => u16::from_be_bytes([d[i + 1], d[i + 2]]) as u64,
        4 => u32::from_be_bytes([d[i + 1], d[i + 2], d[i + 3], d[i + 4]]) as u64,
        _ => u64::from_be_bytes([
            d[i + 1],
            d[i + 2],
            d[i + 3],
            d[i + 4],
            d[i + 5],
            d[i + 6],
            d[i + 7],
            d[i + 8],
        ]),
    };
    let indef = b % 32 == 31;
    Ok(H { kind, adv: 1 + n, val, indef })
}

pub fn code(t: &Type) -> u8 {
    match t {
        Type::Positive => POSITIVE,
        Type::Negative => NEGATIVE,
        Type::Bytes => BYTES,
        Type::Text => TEXT,
        Type::Array => ARRAY,
        Type::Map => MAP,
        Type::Tag => TAG,
        Type::False => FALSE,
        Type::True => TRUE,
        Type::Null => NULL,
        Type::Undefined => UNDEFINED,
        Type::Float => FLOAT,
        Type::Byte => BYTE,
        Type::Break => BREAK,
    }
}

/// the bytes a value is written as
pub fn written<T: Encode + ?Sized>(t: &T) -> Vec<u8> {
    let mut w = Writer::new();
    t.encode(&mut w);
    w.finalize()
}

fn check_lead<L>(p: u64, l: &L, byte: u8, indefinite: bool) {
    if indefinite {
        prove(p, is_variant(l, "IndefiniteNotSupported"));
    } else {
        prove(p, is_variant(l, "Reserved"));
    }
    prove(p, payload::<L, u8, 0>(l) == byte);
}

/// the error says that the lead byte is bad (p), or what is missing (C19)
pub fn check_header_error(p: u64, e: &ReaderError, x: E) {
    match x {
        E::Reserved(b) => match e {
            ReaderError::LeadError(l) => check_lead(p, l, b, false),
            _ => fail(p, "a reserved lead byte is reported as such"),
        },
        E::Indefinite(b) => match e {
            ReaderError::LeadError(l) => check_lead(p, l, b, true),
            _ => fail(p, "an indefinite length that is not allowed is reported as such"),
        },
        E::MissingLead => check_missing(p, e, 1, 0),
        E::MissingArg { need, got } => check_missing(p, e, need, got),
    }
}

pub fn check_missing(p: u64, e: &ReaderError, need: usize, got: usize) {
    match e {
        ReaderError::DataMissing(m) => {
            prove(C19, m.expecting_bytes == need);
            prove(C19, m.got_bytes == got);
        }
        _ => fail(p | C19, "missing data is reported as such"),
    }
}

/// nothing is there, or the lead byte is not acceptable: an error that says so, nothing consumed
pub fn refuse<T>(p: u64, r: &Result<T, ReaderError>, x: E) {
    match r {
        Ok(_) => fail(p, "no element is there"),
        Err(e) => check_header_error(p, e, x),
    }
}

/// an element of another type
pub fn other_type<T>(r: &Result<T, ReaderError>, kind: u8, single: u8) {
    match r {
        Ok(_) => fail(C02 | C03, "an element of another type is accepted"),
        Err(ReaderError::WrongExpectedType { expected, got }) => {
            prove(C03, code(got) == kind);
            prove(C03, code(expected) == single);
        }
        Err(ReaderError::WrongExpectedTypes { expected, got }) => {
            prove(C03, code(got) == kind);
        }
        Err(_) => fail(C03, "an element of another type is not reported as such"),
    }
}
