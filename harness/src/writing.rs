use crate::ops::*;
use crate::spec::*;
use cbored::state::*;
use cbored::*;

/// the bytes of a header, as RFC 8949 has them
pub fn put(out: &mut Vec<u8>, major: u8, v: HeaderValue) {
    match v {
        HeaderValue::Imm(x) => out.push(major * 32 + x),
        HeaderValue::U8(x) => {
            out.push(major * 32 + 24);
            out.push(x);
        }
        HeaderValue::U16(x) => {
            out.push(major * 32 + 25);
            out.extend_from_slice(&x.to_be_bytes());
        }
        HeaderValue::U32(x) => {
            out.push(major * 32 + 26);
            out.extend_from_slice(&x.to_be_bytes());
        }
        HeaderValue::U64(x) => {
            out.push(major * 32 + 27);
            out.extend_from_slice(&x.to_be_bytes());
        }
    }
}
/// a header value that reading and the constructors make
pub fn valid(v: HeaderValue) {
    if let HeaderValue::Imm(x) = v {
        assume(x < 24);
    }
}
pub fn some_header_value() -> HeaderValue {
    let v: HeaderValue = any();
    valid(v);
    v
}

macro_rules! write {
    ($name:ident, $t:ty, $v:ident, $pre:expr, $w:ident => $op:expr, $out:ident => $exp:expr) => {
        pub fn $name(prefix: Vec<u8>) {
            let $v: $t = any();
            $pre;
            let mut $out = prefix.clone();
            let mut $w = Writer::new_from_vec(prefix);
            $op;
            $exp;
            same(C04 | C40, &$w.finalize(), &$out);
        }
    };
}
write!(positive, Positive, v, valid(v.raw_value()), w => w.positive(v), out => put(&mut out, 0, v.raw_value()));
write!(negative, Negative, v, valid(v.raw_value()), w => w.negative(v), out => put(&mut out, 1, v.raw_value()));
write!(scalar, Scalar, v, valid(v.raw_value()), w => w.scalar(v), out => {
    let m = if v.is_positive() { 0 } else { 1 };
    put(&mut out, m, v.raw_value())
});
write!(byte_imm, u8, v, assume(v < 20), w => w.byte(Byte::canonical(v)), out => out.push(0xe0 + v));
write!(byte_ext, u8, v, assume(v >= 20), w => w.byte(Byte::canonical(v)), out => {
    out.push(0xf8);
    out.push(v)
});
write!(constant, Constant, v, (), w => w.constant(v), out => out.push(match v {
    Constant::False => 0xf4,
    Constant::True => 0xf5,
    Constant::Null => 0xf6,
    Constant::Undefined => 0xf7,
}));
write!(bool_, bool, v, (), w => w.bool(v), out => out.push(if v { 0xf5 } else { 0xf4 }));
write!(float, Float, v, (), w => w.float(v), out => match v {
    Float::FP16(x) => {
        out.push(0xf9);
        out.extend_from_slice(&x.to_be_bytes())
    }
    Float::FP32(x) => {
        out.push(0xfa);
        out.extend_from_slice(&x.to_be_bytes())
    }
    Float::FP64(x) => {
        out.push(0xfb);
        out.extend_from_slice(&x.to_be_bytes())
    }
});
write!(tag, TagValue, v, valid(v.raw_value()), w => w.tag_build(v, |_| ()), out => put(&mut out, 6, v.raw_value()));
write!(array_definite, HeaderValue, v, valid(v), w => w.array_build(StructureLength::Definite(v), |_| ()), out => put(&mut out, 4, v));
write!(map_definite, HeaderValue, v, valid(v), w => w.map_build(StructureLength::Definite(v), |_| ()), out => put(&mut out, 5, v));
write!(array_indefinite, (), v, (), w => w.array_build(StructureLength::Indefinite, |_| ()), out => {
    out.push(0x9f);
    out.push(0xff)
});
write!(map_indefinite, (), v, (), w => w.map_build(StructureLength::Indefinite, |_| ()), out => {
    out.push(0xbf);
    out.push(0xff)
});

/// a byte that was read is written back as it was, in both widths
pub fn byte_read(d: &[u8], prefix: Vec<u8>) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    if let Ok(v) = r.byte() {
        let mut out = prefix.clone();
        out.extend_from_slice(slice_of(d, i, r.consumed_bytes()));
        let mut w = Writer::new_from_vec(prefix);
        w.byte(v);
        same(C04 | C40, &w.finalize(), &out);
    }
}

// ------------------------------------------------------------ strings
/// re-emitting what was read gives the bytes that were read
pub fn bytes_back(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    if let Ok(v) = r.bytes() {
        let mut w = Writer::new();
        w.bytes(&v);
        same(C06, w.finalize().as_slice(), slice_of(d, i, r.consumed_bytes()));
    }
}
pub fn text_back(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    if let Ok(v) = r.text() {
        let mut w = Writer::new();
        w.text(&v);
        same(C06, w.finalize().as_slice(), slice_of(d, i, r.consumed_bytes()));
    }
}

// ------------------------------------------------------------ strings from reading, in parts
pub fn bytes_parts(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    if let Ok(v) = r.bytes() {
        let mut out = Vec::new();
        put_bytes(&mut out, &v);
        same(C06, out.as_slice(), slice_of(d, i, r.consumed_bytes()));
    }
}
pub fn text_parts(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    if let Ok(v) = r.text() {
        let mut out = Vec::new();
        put_text(&mut out, &v);
        same(C06, out.as_slice(), slice_of(d, i, r.consumed_bytes()));
    }
}
/// a byte string as RFC 8949 has it
pub fn put_bytes(out: &mut Vec<u8>, v: &Bytes<'_>) {
    match v {
        Bytes::Imm(c) => {
            put(out, 2, c.value());
            out.extend_from_slice(c.as_slice());
        }
        Bytes::Chunks(l) => {
            out.push(0x5f);
            for c in l {
                put(out, 2, c.value());
                out.extend_from_slice(c.as_slice());
            }
            out.push(0xff);
        }
    }
}
pub fn put_text(out: &mut Vec<u8>, v: &Text<'_>) {
    match v {
        Text::Imm(c) => {
            put(out, 3, c.value());
            out.extend_from_slice(c.as_str().as_bytes());
        }
        Text::Chunks(l) => {
            out.push(0x7f);
            for c in l {
                put(out, 3, c.value());
                out.extend_from_slice(c.as_str().as_bytes());
            }
            out.push(0xff);
        }
    }
}

/// an immediate string: the length is there, the content follows
pub fn bytes_imm(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    if let Ok(h) = header_at(d, i) {
        if h.kind == BYTES && !h.indef {
            let room = d.len() - i - h.adv;
            match r.bytes() {
                Ok(Bytes::Imm(c)) => {
                    prove(C06, h.val <= room as u64);
                    prove(C06, c.value().to_u64() == h.val);
                    prove(C06, c.as_slice().len() as u64 == h.val);
                    prove(C06, r.consumed_bytes() == i + h.adv + c.as_slice().len());
                }
                Ok(_) => fail(C06, "a definite string is read as an indefinite one"),
                Err(e) => {
                    if h.val <= room as u64 {
                        fail(C06, "a complete byte string is refused");
                    }
                    content_missing(&e, h.val, room);
                }
            }
        }
    }
}
pub fn text_imm(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    if let Ok(h) = header_at(d, i) {
        if h.kind == TEXT && !h.indef {
            let room = d.len() - i - h.adv;
            let x = r.text();
            if h.val > room as u64 {
                match x {
                    Ok(_) => fail(C06, "more content than there is"),
                    Err(e) => content_missing(&e, h.val, room),
                }
                return;
            }
            let good = core::str::from_utf8(slice_of(d, i + h.adv, i + h.adv + h.val as usize)).is_ok();
            match x {
                Ok(Text::Imm(c)) => {
                    prove(C06, c.value().to_u64() == h.val);
                    prove(C06, c.as_str().len() as u64 == h.val);
                    prove(C06, r.consumed_bytes() == i + h.adv + c.as_str().len());
                    prove(C07, good);
                }
                Ok(_) => fail(C06, "a definite string is read as an indefinite one"),
                Err(e) => {
                    prove(C07, !good);
                    match e {
                        ReaderError::TextUTF8Error(_) => (),
                        _ => fail(C07, "text that is not UTF-8 is reported as such"),
                    }
                }
            }
        }
    }
}
/// any text, also in chunks: the read fails with the UTF-8 error exactly when a validation failed
pub fn text_any(d: &[u8]) {
    let mut r = some_reader(d);
    gset::<usize, 251>(0);
    let x = r.text();
    let failed = gget::<usize, 251>() == 1;
    match x {
        Err(ReaderError::TextUTF8Error(_)) => prove(C07, failed),
        Err(_) => prove(C07, !failed),
        Ok(t) => {
            prove(C07, !failed);
            std::mem::forget(t);
        }
    }
}
/// the content is not there: how much was expected, and how much is there
fn content_missing(e: &ReaderError, need: u64, got: usize) {
    match e {
        ReaderError::DataMissing(m) => {
            prove(C19, m.expecting_bytes as u64 == need);
            prove(C19, m.got_bytes == got);
        }
        _ => fail(C06 | C19, "missing content is reported as such"),
    }
}

// ------------------------------------------------------------ strings from constructors
// (the contents are parts of one unknown buffer: there is one for any list of contents)
pub fn part<'a>(d: &'a [u8]) -> &'a [u8] {
    let a: usize = any();
    let b: usize = any();
    assume(a <= b && b <= d.len());
    slice_of(d, a, b)
}
pub fn str_part<'a>(d: &'a [u8]) -> &'a str {
    let s = core::str::from_utf8(part(d));
    assume(s.is_ok());
    match s {
        Ok(x) => x,
        Err(_) => loop {},
    }
}
pub fn some_bytes<'a>(d: &'a [u8]) -> Bytes<'a> {
    if nondet() {
        return Bytes::from_slice(part(d));
    }
    let mut v = Vec::new();
    while nondet() {
        v.push(BytesData::from_slice(part(d)));
    }
    Bytes::Chunks(v)
}
pub fn some_text<'a>(d: &'a [u8]) -> Text<'a> {
    if nondet() {
        return Text::from_str(str_part(d));
    }
    let mut v = Vec::new();
    while nondet() {
        v.push(TextData::from_str(str_part(d)));
    }
    Text::Chunks(v)
}
macro_rules! write_string {
    ($name:ident, $some:ident, $m:ident, $put:ident) => {
        pub fn $name(d: &[u8], prefix: Vec<u8>) {
            let v = $some(d);
            let mut out = prefix.clone();
            $put(&mut out, &v);
            let mut w = Writer::new_from_vec(prefix);
            w.$m(&v);
            same(C08 | C40, &w.finalize(), &out);
        }
    };
}
write_string!(bytes_made, some_bytes, bytes, put_bytes);
write_string!(text_made, some_text, text, put_text);
macro_rules! rewrite {
    ($name:ident, $m:ident, $p:expr) => {
        pub fn $name(d: &[u8], prefix: Vec<u8>) {
            let mut r = some_reader(d);
            let i = r.consumed_bytes();
            if let Ok(v) = r.$m() {
                let mut out = prefix.clone();
                out.extend_from_slice(slice_of(d, i, r.consumed_bytes()));
                let mut w = Writer::new_from_vec(prefix);
                w.$m(&v);
                same($p, &w.finalize(), &out);
            }
        }
    };
}
rewrite!(bytes_read, bytes, C08 | C40);
rewrite!(text_read, text, C08 | C40);
