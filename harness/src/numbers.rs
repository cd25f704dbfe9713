//! numbers: canonical constructors, native integers, conversions
use crate::ops::*;
use crate::spec::*;
use crate::writing::*;
use cbored::state::*;
use cbored::*;

/// the shortest header for the number
pub fn shortest(n: u64) -> HeaderValue {
    if n < 24 {
        HeaderValue::Imm(n as u8)
    } else if n < 256 {
        HeaderValue::U8(n as u8)
    } else if n < 65536 {
        HeaderValue::U16(n as u16)
    } else if n < 4294967296 {
        HeaderValue::U32(n as u32)
    } else {
        HeaderValue::U64(n)
    }
}
/// the number in the header
pub fn number(v: HeaderValue) -> u64 {
    match v {
        HeaderValue::Imm(x) => x as u64,
        HeaderValue::U8(x) => x as u64,
        HeaderValue::U16(x) => x as u64,
        HeaderValue::U32(x) => x as u64,
        HeaderValue::U64(x) => x,
    }
}
pub fn is_shortest(v: HeaderValue) -> bool {
    match v {
        HeaderValue::Imm(x) => true,
        HeaderValue::U8(x) => x >= 24,
        HeaderValue::U16(x) => x >= 256,
        HeaderValue::U32(x) => x >= 65536,
        HeaderValue::U64(x) => x >= 4294967296,
    }
}

// ------------------------------------------------------------ C05
pub fn canonical_header(n: u64) {
    let v = HeaderValue::canonical(n);
    same(C05, &v, &shortest(n));
    prove(C05, v.to_u64() == n);
    prove(C05, v.is_canonical());
}
pub fn canonical_header_predicate() {
    let v = some_header_value();
    prove(C05, v.is_canonical() == is_shortest(v));
    prove(C05 | C24, v.to_u64() == number(v));
}
pub fn canonical_positive(n: u64) {
    let v = Positive::canonical(n);
    same(C05, &v.raw_value(), &shortest(n));
    prove(C05 | C24, v.to_u64() == n);
    prove(C05, v.is_canonical());
}
pub fn canonical_negative(n: u64) {
    let v = Negative::canonical(n);
    same(C05, &v.raw_value(), &shortest(n));
    prove(C05, v.is_canonical());
}
pub fn canonical_scalar_positive(n: u64) {
    let v = Scalar::canonical_positive(n);
    prove(C05, v.is_positive());
    prove(C05, !v.is_negative());
    same(C05, &v.raw_value(), &shortest(n));
    prove(C05, v.is_canonical());
}
pub fn canonical_scalar_negative(n: u64) {
    let v = Scalar::canonical_negative(n);
    prove(C05, v.is_negative());
    prove(C05, !v.is_positive());
    same(C05, &v.raw_value(), &shortest(n));
    prove(C05, v.is_canonical());
}
pub fn canonical_predicates() {
    let p: Positive = any();
    valid(p.raw_value());
    prove(C05, p.is_canonical() == is_shortest(p.raw_value()));
    let n: Negative = any();
    valid(n.raw_value());
    prove(C05, n.is_canonical() == is_shortest(n.raw_value()));
    let s: Scalar = any();
    valid(s.raw_value());
    prove(C05, s.is_canonical() == is_shortest(s.raw_value()));
}
pub fn canonical_tag(n: u64) {
    let v = TagValue::from_u64(n);
    same(C05, &v.raw_value(), &shortest(n));
    prove(C05, v.to_u64() == n);
}
pub fn canonical_length(n: u64) {
    match StructureLength::from(n) {
        StructureLength::Definite(v) => same(C05, &v, &shortest(n)),
        StructureLength::Indefinite => fail(C05, "a number of elements is a definite length"),
    }
}
pub fn length_of_stream() {
    let v: Option<HeaderValue> = any();
    match StructureLength::from(v) {
        StructureLength::Definite(x) => match v {
            Some(y) => same(C05, &x, &y),
            None => fail(C05, "an indefinite length becomes definite"),
        },
        StructureLength::Indefinite => prove(C05, matches!(v, None)),
    }
    let l = StructureLength::from(v);
    prove(C05 | C10, l.is_indefinite() == matches!(v, None));
}
pub fn canonical_byte(n: u8) {
    let v = Byte::canonical(n);
    prove(C05, v.to_u8() == n);
    prove(C05, v.is_canonical());
    let w = written(&v);
    if n < 20 {
        prove(C05, w.len() == 1);
    } else {
        prove(C05, w.len() == 2);
    }
}
/// a byte that was read is canonical exactly when it could not be shorter
pub fn byte_predicate(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    if let Ok(v) = r.byte() {
        let short = d[i] != 0xf8;
        let x = if short { d[i] % 32 } else { d[i + 1] };
        prove(C05 | C02, v.to_u8() == x);
        prove(C05, v.is_canonical() == (short || x >= 20));
    }
}
pub fn bytes_from_slice(s: &[u8]) {
    match Bytes::from_slice(s) {
        Bytes::Imm(d) => {
            same(C05, &d.value(), &shortest(s.len() as u64));
            same(C05, d.as_slice(), s);
        }
        Bytes::Chunks(_) => fail(C05, "a slice is one definite string"),
    }
    let d = BytesData::from_slice(s);
    same(C05, &d.value(), &shortest(s.len() as u64));
    same(C05, d.as_slice(), s);
}
pub fn text_from_str(s: &str) {
    match Text::from_str(s) {
        Text::Imm(d) => {
            same(C05, &d.value(), &shortest(s.len() as u64));
            same(C05, d.as_str(), s);
        }
        Text::Chunks(_) => fail(C05, "a str is one definite string"),
    }
    let d = TextData::from_str(s);
    same(C05, &d.value(), &shortest(s.len() as u64));
    same(C05, d.as_str(), s);
}
pub fn bytes_from_vec(s: Vec<u8>) {
    let c = s.clone();
    match BytesOwned::from_vec(s) {
        BytesOwned::Imm(d) => {
            same(C05, &d.value(), &shortest(c.len() as u64));
            same(C05, d.as_slice(), c.as_slice());
        }
        BytesOwned::Chunks(_) => fail(C05, "a vector is one definite string"),
    }
}
pub fn text_from_string(s: String) {
    let c = s.clone();
    match TextOwned::from_string(s) {
        TextOwned::Imm(d) => {
            same(C05, &d.value(), &shortest(c.len() as u64));
            same(C05, d.as_str(), c.as_str());
        }
        TextOwned::Chunks(_) => fail(C05, "a string is one definite string"),
    }
}

// ------------------------------------------------------------ C22
macro_rules! native {
    ($dec:ident, $enc:ident, $t:ty, $max:expr) => {
        pub fn $dec(d: &[u8]) {
            let mut r = some_reader(d);
            let i = r.consumed_bytes();
            let v = <$t as Decode>::decode(&mut r);
            match header_at(d, i) {
                Ok(h) => {
                    if h.kind == POSITIVE {
                        reached(C22, "a positive");
                        if h.val <= $max {
                            match v {
                                Ok(x) => {
                                    prove(C22, x as u64 == h.val);
                                    prove(C22 | C03, r.consumed_bytes() == i + h.adv);
                                }
                                Err(_) => fail(C22, "a number in range is refused"),
                            }
                        } else {
                            match v {
                                Ok(_) => fail(C22, "a number out of range is accepted"),
                                Err(e) => match e.error() {
                                    DecodeErrorKind::OutOfRange { min, max, got } => {
                                        prove(C22, *got == h.val);
                                        prove(C22, *max == $max);
                                        prove(C22, *min == 0);
                                    }
                                    _ => fail(C22, "out of range is reported as such"),
                                },
                            }
                        }
                    } else {
                        match v {
                            Ok(_) => fail(C22, "only positive elements are integers"),
                            Err(_) => (),
                        }
                    }
                }
                Err(_) => match v {
                    Ok(_) => fail(C22, "no element is there"),
                    Err(_) => (),
                },
            }
        }
        pub fn $enc(prefix: Vec<u8>) {
            let x: $t = any();
            let mut out = prefix.clone();
            let mut w = Writer::new_from_vec(prefix);
            x.encode(&mut w);
            put(&mut out, 0, shortest(x as u64));
            same(C22 | C40, &w.finalize(), &out);
        }
    };
}
native!(decode_u8, encode_u8, u8, 0xff);
native!(decode_u16, encode_u16, u16, 0xffff);
native!(decode_u32, encode_u32, u32, 0xffff_ffff);
native!(decode_u64, encode_u64, u64, 0xffff_ffff_ffff_ffff);

pub fn decode_bool(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    let v = <bool as Decode>::decode(&mut r);
    match v {
        Ok(b) => {
            reached(C22, "a boolean");
            prove(C22, i < d.len());
            prove(C22, d[i] == if b { 0xf5 } else { 0xf4 });
            prove(C22 | C03, r.consumed_bytes() == i + 1);
        }
        Err(_) => {
            if i < d.len() {
                prove(C22, d[i] != 0xf4 && d[i] != 0xf5);
            }
        }
    }
}
pub fn encode_bool(b: bool, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    let mut w = Writer::new_from_vec(prefix);
    b.encode(&mut w);
    out.push(if b { 0xf5 } else { 0xf4 });
    same(C22 | C40, &w.finalize(), &out);
}

// ------------------------------------------------------------ C24
pub const I64_MAX: u64 = 0x7fff_ffff_ffff_ffff;
fn check_signed(negative: bool, n: u64, x: Option<i64>) {
    if n <= I64_MAX {
        match x {
            Some(i) => {
                if negative {
                    prove(C24, i as i128 == -1 - (n as i128));
                } else {
                    prove(C24, i as i128 == n as i128);
                }
            }
            None => fail(C24, "a representable number is refused"),
        }
    } else {
        match x {
            Some(_) => fail(C24, "a number that is not representable is converted"),
            None => (),
        }
    }
}
pub fn signed_negative() {
    let v: Negative = any();
    valid(v.raw_value());
    check_signed(true, number(v.raw_value()), v.to_i64());
}
pub fn signed_scalar() {
    let v: Scalar = any();
    valid(v.raw_value());
    check_signed(v.is_negative(), number(v.raw_value()), v.to_i64());
}
pub fn unsigned_accessors() {
    let p: Positive = any();
    valid(p.raw_value());
    prove(C24, p.to_u64() == number(p.raw_value()));
}
