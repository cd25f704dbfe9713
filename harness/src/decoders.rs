//! decoders: whole inputs, generic data, vectors, tagged types
use crate::ops::*;
use crate::spec::*;
use crate::writing::*;
use cbored::state::*;
use cbored::tagged::{EncodedCBOR, NegativeBignum, PositiveBignum, RationalNumber, StandardDateTime};
use cbored::*;

// ------------------------------------------------------------ whole inputs (C21)
// (table whole: an arbitrary decoder that consumes anything; cell 1 the value it answered, cell 2 what it left)
fn whole<X>(x: Result<Op<0>, X>) {
    match x {
        Ok(v) => {
            prove(C21, gget::<usize, 2>() == 0);
            same(C21, &v, &gget::<Op<0>, 1>());
        }
        Err(_) => {
            if ghas::<1>() {
                prove(C21, gget::<usize, 2>() != 0);
            }
        }
    }
}
/// nothing left, and the handle holds the bytes that were decoded
fn handle<X>(x: Result<(), X>) {
    match x {
        Ok(()) => prove(C21 | C30, ghas::<1>() && gget::<usize, 2>() == 0),
        Err(_) => {
            if ghas::<1>() {
                prove(C21, gget::<usize, 2>() != 0);
            }
        }
    }
}
pub fn whole_bytes(d: &[u8]) {
    whole(decode_from_bytes::<Op<0>>(d));
}
pub fn whole_one(d: &[u8]) {
    let mut r = some_reader(d);
    whole(r.decode_one::<Op<0>>());
}
pub fn whole_slice(d: &[u8]) {
    whole(cbor_of(part(d)).decode::<Op<0>>());
}
pub fn whole_data(d: &[u8]) {
    whole(cbor_of(part(d)).to_owned().decode::<Op<0>>());
}
pub fn whole_validate_slice(d: &[u8]) {
    let s = cbor_of(part(d));
    handle(s.validate_as::<Op<0>>().map(|h| same(C21 | C30, h.untype().as_ref(), s.as_ref())));
}
pub fn whole_validate_data(d: &[u8]) {
    let s = cbor_of(part(d)).to_owned();
    handle(s.validate_as::<Op<0>>().map(|h| same(C21 | C30, h.as_ref(), s.as_ref())));
}
pub fn whole_exact_slice(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    match r.exact_decodable_slice::<Op<0>>() {
        Ok(h) => {
            prove(C21 | C30, ghas::<1>() && gget::<usize, 2>() == 0);
            same(C21 | C30, h.untype().as_ref(), slice_of(d, i, r.consumed_bytes()));
        }
        Err(_) => {
            if ghas::<1>() {
                prove(C21, gget::<usize, 2>() != 0);
            }
        }
    }
}
pub fn whole_exact_data(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    match r.exact_decodable_data::<Op<0>>() {
        Ok(h) => {
            prove(C21 | C30, ghas::<1>() && gget::<usize, 2>() == 0);
            same(C21 | C30, h.as_ref(), slice_of(d, i, r.consumed_bytes()));
        }
        Err(_) => {
            if ghas::<1>() {
                prove(C21, gget::<usize, 2>() != 0);
            }
        }
    }
}
pub fn whole_typed(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    match r.decode::<CborDataOf<Op<0>>>() {
        Ok(h) => {
            prove(C21 | C30, ghas::<1>() && gget::<usize, 2>() == 0);
            same(C21 | C30, h.as_ref(), slice_of(d, i, r.consumed_bytes()));
        }
        Err(_) => {
            if ghas::<1>() {
                prove(C21, gget::<usize, 2>() != 0);
            }
        }
    }
}
pub fn whole_tag_decode(t: &Tag) {
    whole(t.decode_data::<Op<0>>());
}
pub fn whole_tag_read(t: &Tag) {
    whole(t.read_data(|r| match crate::model::whole::decode::<0>(r) {
        Ok(v) => Ok(v),
        Err(_) => Err(ReaderError::BytesChunksInBytesChunks),
    }));
}
/// untyping, cloning, borrowing and owning keep the bytes
pub fn handles(x: &Op<0>) {
    use std::borrow::Borrow;
    let h: CborDataOf<Op<0>> = x.into();
    let b = op_bytes(x);
    same(C30, h.as_ref(), b);
    let c = h.clone();
    same(C30, c.as_ref(), b);
    let s: &CborSliceOf<Op<0>> = h.borrow();
    same(C30, s.untype().as_ref(), b);
    same(C30, s.to_owned().as_ref(), b);
    same(C30, written(s).as_slice(), b);
    same(C30, written(&h).as_slice(), b);
    let u = c.untype();
    same(C30, u.as_ref(), b);
    same(C30, written(&u).as_slice(), b);
    same(C30, encode_to_bytes(x).as_slice(), b);
    let mut w = Writer::new();
    w.encode(x);
    let f = w.finalize_data();
    same(C30, f.as_ref(), b);
    same(C30, reader_slice(&f.read()), b);
}

// ------------------------------------------------------------ vectors of elements (C31)
pub fn vec_encode(v: &[Op<0>], prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 4, crate::numbers::shortest(v.len() as u64));
    for e in v {
        out.extend_from_slice(op_bytes(e));
    }
    let mut w = Writer::new_from_vec(prefix);
    encode_vec(v, &mut w);
    same(C31 | C40, &w.finalize(), &out);
}
/// (table vec: cell 1 the array that was read, 4 the number of elements decoded, 5 one was refused)
pub fn vec_decode(d: &[u8]) {
    let mut r = some_reader(d);
    gset::<usize, 4>(0);
    let v = decode_vec::<Op<0>>(&mut r);
    match v {
        Ok(v) => {
            prove(C31, ghas::<1>() && !ghas::<5>());
            let l = gget::<usize, 6>();
            prove(C31, gget::<usize, 4>() == l);
            prove(C31, v.len() == l);
            let k: usize = any();
            assume(k < l);
            same(C31, &v[k], &op_of::<0>(k as u64));
        }
        Err(e) => match e.error() {
            DecodeErrorKind::OutOfRange { got, .. } => {
                prove(C31, ghas::<1>() && ghas::<5>());
                prove(C31, gget::<usize, 4>() as u64 == *got + 1);
            }
            DecodeErrorKind::ReaderError(ReaderError::BytesChunksInBytesChunks) => prove(C31, !ghas::<1>()),
            _ => fail(C31, "another error"),
        },
    }
}

// ------------------------------------------------------------ generic data (C26)
/// (table typed: cell 1 what was called, 2 what it answered, 3 where the reader has to be)
macro_rules! data_of {
    ($name:ident, $kind:expr, $t:ty, $var:ident) => {
        pub fn $name(d: &[u8]) {
            let mut r = some_reader(d);
            let i = r.consumed_bytes();
            if let Ok(h) = header_at(d, i) {
                if h.kind == $kind {
                    gset::<usize, 3>(i);
                    match r.data() {
                        Ok(Data::$var(v)) => {
                            prove(C26, gget::<u8, 1>() == $kind);
                            prove(C26, !ghas::<4>());
                            same(C26, &v, &gget::<$t, 2>());
                        }
                        Ok(_) => fail(C26, "another variant"),
                        Err(e) => {
                            prove(C26, gget::<u8, 1>() == $kind);
                            prove(C26, ghas::<4>());
                            same(C26, &e, &gget::<ReaderError, 4>());
                        }
                    }
                    prove(C26, r.consumed_bytes() == i);
                }
            }
        }
    };
}
data_of!(data_bytes, BYTES, Bytes, Bytes);
data_of!(data_text, TEXT, Text, Text);
data_of!(data_array, ARRAY, Array, Array);
data_of!(data_map, MAP, Map, Map);
data_of!(data_tag, TAG, Tag, Tag);
/// decoding owned data is the owned form of what the typed read answers
macro_rules! data_decoded {
    ($name:ident, $kind:expr, $t:ty, $var:ident, $m:ident) => {
        pub fn $name(d: &[u8]) {
            let mut r = some_reader(d);
            let i = r.consumed_bytes();
            if let Ok(h) = header_at(d, i) {
                if h.kind == $kind {
                    gset::<usize, 3>(i);
                    match r.decode::<DataOwned>() {
                        Ok(DataOwned::$var(v)) => {
                            prove(C26, gget::<u8, 1>() == $kind && !ghas::<4>());
                            let mut w = Writer::new();
                            w.$m(&gget::<$t, 2>());
                            let out = w.finalize();
                            let mut w = Writer::new();
                            w.$m(&v.borrow());
                            same(C26, w.finalize().as_slice(), out.as_slice());
                        }
                        Ok(_) => fail(C26, "another variant"),
                        Err(_) => prove(C26, gget::<u8, 1>() == $kind && ghas::<4>()),
                    }
                }
            }
        }
    };
}
data_decoded!(data_decoded_bytes, BYTES, Bytes, Bytes, bytes);
data_decoded!(data_decoded_text, TEXT, Text, Text, text);
data_decoded!(data_decoded_tag, TAG, Tag, Tag, tag);
/// (arrays and maps: what the conversion to the owned form, C27, answers)
macro_rules! data_decoded_all {
    ($name:ident, $kind:expr, $t:ty, $var:ident) => {
        pub fn $name(d: &[u8]) {
            let mut r = some_reader(d);
            let i = r.consumed_bytes();
            if let Ok(h) = header_at(d, i) {
                if h.kind == $kind {
                    gset::<usize, 3>(i);
                    match r.decode::<DataOwned>() {
                        Ok(DataOwned::$var(v)) => {
                            prove(C26, gget::<u8, 1>() == $kind && !ghas::<4>());
                            same(C26, &v, &gget::<$t, 7>());
                        }
                        Ok(_) => fail(C26, "another variant"),
                        Err(_) => prove(C26, gget::<u8, 1>() == $kind && ghas::<4>()),
                    }
                }
            }
        }
    };
}
data_decoded_all!(data_decoded_array, ARRAY, ArrayOwned, Array);
data_decoded_all!(data_decoded_map, MAP, MapOwned, Map);
/// the short ones, and what is no element
pub fn data_short(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    let h = header_at(d, i);
    let k = match &h {
        Ok(h) => h.kind,
        Err(_) => 99,
    };
    if k == BYTES || k == TEXT || k == ARRAY || k == MAP || k == TAG {
        return;
    }
    gset::<usize, 3>(i);
    let x = r.data();
    if ghas::<1>() {
        // (the header is not complete: what the typed read says of it)
        prove(C26, h.is_err());
        return;
    }
    let j = r.consumed_bytes();
    match h {
        Err(e) => {
            refuse(C26, &x, e);
            prove(C26, i == j);
        }
        Ok(h) => {
            match &x {
                Ok(v) => {
                    prove(C26, h.kind != BREAK);
                    prove(C26, j == i + h.adv);
                    let w = written(v);
                    same(C26, w.as_slice(), slice_of(d, i, j));
                    let k = match v {
                        Data::Positive(_) => POSITIVE,
                        Data::Negative(_) => NEGATIVE,
                        Data::Float(_) => FLOAT,
                        Data::Byte(_) => BYTE,
                        Data::True => TRUE,
                        Data::False => FALSE,
                        Data::Null => NULL,
                        Data::Undefined => UNDEFINED,
                        _ => 99,
                    };
                    prove(C26, h.kind == k);
                }
                Err(ReaderError::UnexpectedBreakType) => {
                    prove(C26, h.kind == BREAK);
                    prove(C26, i == j);
                }
                Err(_) => fail(C26, "a complete element is refused"),
            };
        }
    }
}
pub fn data_decoded_short(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    let h = header_at(d, i);
    let k = match &h {
        Ok(h) => h.kind,
        Err(_) => 99,
    };
    if k == BYTES || k == TEXT || k == ARRAY || k == MAP || k == TAG {
        return;
    }
    gset::<usize, 3>(i);
    let x = r.decode::<DataOwned>();
    if ghas::<1>() {
        // (the header is not complete: what the typed read says of it)
        prove(C26, h.is_err());
        return;
    }
    let j = r.consumed_bytes();
    match h {
        Err(e) => {
            prove(C26, x.is_err());
            prove(C26, i == j);
        }
        Ok(h) => {
            match &x {
                Ok(v) => {
                    prove(C26, h.kind != BREAK);
                    prove(C26, j == i + h.adv);
                    let w = written(v);
                    same(C26, w.as_slice(), slice_of(d, i, j));
                    let k = match v {
                        DataOwned::Positive(_) => POSITIVE,
                        DataOwned::Negative(_) => NEGATIVE,
                        DataOwned::Float(_) => FLOAT,
                        DataOwned::Byte(_) => BYTE,
                        DataOwned::True => TRUE,
                        DataOwned::False => FALSE,
                        DataOwned::Null => NULL,
                        DataOwned::Undefined => UNDEFINED,
                        _ => 99,
                    };
                    prove(C26, h.kind == k);
                }
                Err(_) => prove(C26, h.kind == BREAK && i == j),
            };
        }
    }
}
/// writing generic data, borrowed and owned, is writing the typed value
macro_rules! data_write {
    ($name:ident, $m:ident, $var:ident) => {
        pub fn $name(d: &[u8], prefix: Vec<u8>) {
            let mut r = some_reader(d);
            let i = r.consumed_bytes();
            if let Ok(v) = r.$m() {
                let mut out = prefix.clone();
                out.extend_from_slice(slice_of(d, i, r.consumed_bytes()));
                let x = Data::$var(v);
                let o = x.owned();
                let mut w = Writer::new_from_vec(prefix.clone());
                w.data(&x);
                same(C26 | C40, &w.finalize(), &out);
                let mut w = Writer::new_from_vec(prefix);
                w.encode(&o);
                same(C26 | C27, &w.finalize(), &out);
            }
        }
    };
}
data_write!(data_write_positive, positive, Positive);
data_write!(data_write_negative, negative, Negative);
data_write!(data_write_float, float, Float);
data_write!(data_write_byte, byte, Byte);
data_write!(data_write_bytes, bytes, Bytes);
data_write!(data_write_text, text, Text);
data_write!(data_write_array, array, Array);
data_write!(data_write_map, map, Map);
data_write!(data_write_tag, tag, Tag);
pub fn data_write_constant(prefix: Vec<u8>) {
    let c: Constant = any();
    let x = match c {
        Constant::False => Data::False,
        Constant::True => Data::True,
        Constant::Null => Data::Null,
        Constant::Undefined => Data::Undefined,
    };
    let mut w = Writer::new_from_vec(prefix.clone());
    w.constant(c);
    let out = w.finalize();
    let o = x.owned();
    let mut w = Writer::new_from_vec(prefix.clone());
    w.data(&x);
    same(C26 | C40, &w.finalize(), &out);
    let mut w = Writer::new_from_vec(prefix);
    w.encode(&o);
    same(C26 | C27, &w.finalize(), &out);
}

// ------------------------------------------------------------ tagged types (C29)
/// accepted exactly when the tag has the number and the content is wholly one string
/// (table typed: cell 1 what was called last, 2 the value, 5 the tag, 6 what the read of the string left)
macro_rules! tagged_of {
    ($name:ident, $t:ident, $tag:expr, $kind:expr, $c:ty, $put:ident) => {
        pub fn $name<'a>(d: &'a [u8], parts: &'a [u8]) {
            let mut r = some_reader(d);
            let i = r.consumed_bytes();
            gset::<usize, 3>(i);
            gset::<&'a [u8], 0>(parts);
            match $t::read(&mut r) {
                Ok(v) => {
                    prove(C29, ghas::<5>());
                    let t = gget::<Tag, 5>();
                    prove(C29, t.value() == $tag);
                    prove(C29, gget::<u8, 1>() == $kind && !ghas::<4>());
                    prove(C29, gget::<usize, 6>() == 0);
                    let mut out = Vec::new();
                    put(&mut out, 6, t.tag_repr().raw_value());
                    $put(&mut out, &gget::<$c, 2>());
                    let w = written(&v);
                    same(C29, w.as_slice(), out.as_slice());
                }
                Err(_) => {
                    if ghas::<5>() {
                        let t = gget::<Tag, 5>();
                        if t.value() == $tag && gget::<u8, 1>() == $kind && !ghas::<4>() {
                            prove(C29, gget::<usize, 6>() != 0);
                        } else if t.value() == $tag {
                            prove(C29, gget::<u8, 1>() == $kind);
                        }
                    }
                }
            }
        }
    };
}
tagged_of!(tagged_date, StandardDateTime, 0, TEXT, Text, put_text);
tagged_of!(tagged_positive_bignum, PositiveBignum, 2, BYTES, Bytes, put_bytes);
tagged_of!(tagged_negative_bignum, NegativeBignum, 3, BYTES, Bytes, put_bytes);
tagged_of!(tagged_encoded, EncodedCBOR, 24, BYTES, Bytes, put_bytes);

pub fn encoded_made(d: &[u8]) {
    let b = part(d);
    let v = EncodedCBOR::from_bytes(b);
    let mut out = Vec::new();
    out.push(0xd8);
    out.push(24);
    put(&mut out, 2, crate::numbers::shortest(b.len() as u64));
    out.extend_from_slice(b);
    let w = written(&v);
    same(C29 | C08, w.as_slice(), out.as_slice());
    same(C29, v.to_bytes().as_slice(), b);
}

/// (table rational)
fn accepted<T, const V: usize, const L: usize, const X: usize>(kind: u8, k: u8) -> bool {
    if ghas::<V>() {
        gget::<usize, L>() == 0
    } else {
        !ghas::<X>() && kind == k
    }
}
fn put_of<T, const V: usize, const L: usize>(out: &mut Vec<u8>) {
    prove(C29, gget::<usize, L>() == 0);
    out.extend_from_slice(bytes_of(&gget::<T, V>()));
}
pub fn rational<'a>(d: &'a [u8]) {
    let mut r = Reader::new(d);
    gset::<usize, 3>(0);
    match RationalNumber::read(&mut r) {
        Ok(v) => {
            prove(C29, ghas::<5>() && ghas::<7>());
            let t = gget::<Tag, 5>();
            prove(C29, t.value() == 30);
            prove(C29, gget::<usize, 6>() == 0);
            let a = gget::<Array, 7>();
            prove(C29, a.len() == 2);
            let mut out = Vec::new();
            put(&mut out, 6, t.tag_repr().raw_value());
            let l = field_of::<Array, StructureLength>(&a);
            match l {
                StructureLength::Indefinite => out.push(0x9f),
                StructureLength::Definite(l) => put(&mut out, 4, l),
            }
            if ghas::<10>() {
                put_of::<Positive, 10, 11>(&mut out);
            } else if ghas::<20>() {
                put_of::<Negative, 20, 21>(&mut out);
            } else if ghas::<30>() {
                put_of::<PositiveBignum, 30, 31>(&mut out);
            } else {
                prove(C29, ghas::<40>());
                put_of::<NegativeBignum, 40, 41>(&mut out);
            }
            if ghas::<50>() {
                put_of::<Positive, 50, 51>(&mut out);
            } else {
                prove(C29, ghas::<60>());
                put_of::<PositiveBignum, 60, 61>(&mut out);
            }
            if let StructureLength::Indefinite = l {
                out.push(0xff);
            }
            let w = written(&v);
            same(C29, w.as_slice(), out.as_slice());
        }
        Err(_) => {
            // the tag, the array and both elements are not all as they have to be
            if ghas::<5>() && gget::<Tag, 5>().value() == 30 && ghas::<7>() && gget::<usize, 6>() == 0 && ghas::<8>() {
                let n = gget::<u8, 8>();
                let d = gget::<u8, 9>();
                let n = accepted::<Positive, 10, 11, 12>(n, POSITIVE)
                    || accepted::<Negative, 20, 21, 22>(n, NEGATIVE)
                    || accepted::<PositiveBignum, 30, 31, 32>(n, TAG)
                    || (!ghas::<30>() && accepted::<NegativeBignum, 40, 41, 42>(n, TAG));
                let d = accepted::<Positive, 50, 51, 52>(d, POSITIVE) || accepted::<PositiveBignum, 60, 61, 62>(d, TAG);
                prove(C29, !n || !d);
            }
        }
    }
}

// ------------------------------------------------------------ nothing panics (C15)
macro_rules! decodes {
    ($($name:ident: $t:ty),*) => {
        $(pub fn $name(d: &[u8]) {
            let mut r = some_reader(d);
            let _ = r.decode::<$t>();
        })*
    };
}
decodes!(
    any_u8: u8, any_u16: u16, any_u32: u32, any_u64: u64, any_bool: bool, any_string: String, any_vec: Vec<u8>,
    any_scalar: Scalar,
    any_data: DataOwned, any_typed: CborDataOf<Op<0>>, any_date: StandardDateTime, any_positive_bignum: PositiveBignum,
    any_negative_bignum: NegativeBignum, any_encoded: EncodedCBOR
);
pub fn any_vector(d: &[u8]) {
    let mut r = some_reader(d);
    let _ = decode_vec::<Op<0>>(&mut r);
}
