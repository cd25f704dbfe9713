//! what derived code calls, answering anything, and what it did
//! (cells: 0 the buffer, 101 the array, 102 something was refused, 103 the map, 104 where the first read
//! has to be, 105 the tag, 106 something was left over, 107 a value was not looked at, 108 the number of
//! keys read, 109 the number (key) that was read, 111.. the values by field, 120 121 122 a vector's array,
//! how many of its elements were read, one was refused, 130 the element of the first field, 131 what is
//! derived, 132 133 134 where the next field of a flat structure has to be, which one it is, what is read
//! from, 135 the keys, 136 where the structure ends, 137 the element of the vector, 141 a key twice)
use crate::ops::*;
use crate::spec::*;
use crate::writing::*;
use cbored::*;

pub const D: u64 = C32 | C33 | C34 | C35 | C36 | C37;
pub const ARR: u8 = 0;
pub const FLAT: u8 = 1;
pub const MAPPED: u8 = 2;
pub const TYPED: u8 = 3;

pub fn has(n: usize) -> bool {
    match n {
        1 => ghas::<111>(),
        2 => ghas::<112>(),
        3 => ghas::<113>(),
        4 => ghas::<114>(),
        5 => ghas::<115>(),
        _ => ghas::<116>(),
    }
}
pub fn get(n: usize) -> u64 {
    match n {
        1 => gget::<u64, 111>(),
        2 => gget::<u64, 112>(),
        3 => gget::<u64, 113>(),
        4 => gget::<u64, 114>(),
        5 => gget::<u64, 115>(),
        _ => gget::<u64, 116>(),
    }
}
fn set(n: usize, v: u64) {
    match n {
        1 => gset::<u64, 111>(v),
        2 => gset::<u64, 112>(v),
        3 => gset::<u64, 113>(v),
        4 => gset::<u64, 114>(v),
        5 => gset::<u64, 115>(v),
        _ => gset::<u64, 116>(v),
    }
}
/// a reader at any position, from which something derived is decoded
pub fn start<'a>(d: &'a [u8], what: u8, first: usize) -> Reader<'a> {
    let mut r = Reader::new(d);
    read_on(&mut r);
    gset::<&'a [u8], 0>(d);
    gset::<usize, 104>(r.consumed_bytes());
    gset::<u8, 131>(what);
    gset::<u8, 106>(0);
    gset::<usize, 130>(first);
    if what == FLAT {
        gset::<&'a [u8], 134>(d);
        gset::<usize, 132>(r.consumed_bytes());
        gset::<usize, 133>(1);
    }
    if what == MAPPED {
        gset::<usize, 108>(0);
    }
    r
}
/// this is where the structure has to be
fn at<'a>(r: &Reader<'a>) {
    if ghas::<105>() {
        prove(D, r.consumed_bytes() == 0);
        same(D, reader_slice(r), gget::<Tag<'a>, 105>().data().as_ref());
    } else {
        prove(D, r.consumed_bytes() == gget::<usize, 104>());
        same(D, reader_slice(r), gget::<&'a [u8], 0>());
    }
}
fn read_structure<'a>(r: &mut Reader<'a>) -> Result<(), ReaderError> {
    read_on(r);
    if ghas::<105>() {
        if r.remaining_bytes() != 0 {
            gset::<u8, 106>(1);
        }
    } else {
        gset::<usize, 136>(r.consumed_bytes());
    }
    refuse_some()
}
fn refuse_some() -> Result<(), ReaderError> {
    if nondet() {
        gset::<u8, 102>(0);
        return Err(ReaderError::BytesChunksInBytesChunks);
    }
    Ok(())
}
pub fn array<'a>(r: &mut Reader<'a>) -> Result<Array<'a>, ReaderError> {
    prove(D, gget::<u8, 131>() == ARR);
    if ghas::<101>() {
        // the elements of a vector
        prove(D, !ghas::<120>());
        prove(D, r.consumed_bytes() == 0);
        let k = gget::<usize, 137>();
        let a = gget::<Array<'a>, 101>();
        prove(D, k < a.len());
        same(D, reader_slice(r), a[k].as_ref());
        read_on(r);
        refuse_some()?;
        let a: Array<'a> = any();
        gset::<usize, 121>(0);
        gset::<Array<'a>, 120>(a.clone());
        return Ok(a);
    }
    at(r);
    read_structure(r)?;
    let a: Array<'a> = any();
    gset::<Array<'a>, 101>(a.clone());
    Ok(a)
}
pub fn map<'a>(r: &mut Reader<'a>) -> Result<Map<'a>, ReaderError> {
    prove(D, gget::<u8, 131>() == MAPPED);
    prove(D, !ghas::<103>());
    at(r);
    read_structure(r)?;
    let a: Map<'a> = any();
    gset::<Map<'a>, 103>(a.clone());
    Ok(a)
}
pub fn tag<'a>(r: &mut Reader<'a>) -> Result<Tag<'a>, ReaderError> {
    prove(D, !ghas::<105>());
    at(r);
    read_structure(r)?;
    let t: Tag<'a> = any();
    valid(t.tag_repr().raw_value());
    if gget::<u8, 131>() == FLAT {
        gset::<&'a [u8], 134>(reader_slice(&t.reader()));
        gset::<usize, 132>(0);
    }
    gset::<Tag<'a>, 105>(t.clone());
    Ok(t)
}
fn some_element<'a>(r: &mut Reader<'a>, e: &[u8]) {
    prove(D, r.consumed_bytes() == 0);
    same(D, reader_slice(r), e);
    read_on(r);
    if r.remaining_bytes() != 0 {
        gset::<u8, 106>(1);
    }
}
/// the number of a variant, or a key
pub fn positive<'a>(r: &mut Reader<'a>) -> Result<Positive, ReaderError> {
    if gget::<u8, 131>() == ARR {
        prove(D, ghas::<101>() && gget::<usize, 130>() == 1);
        let a = gget::<Array<'a>, 101>();
        prove(D, a.len() > 0);
        some_element(r, a[0].as_ref());
        refuse_some()?;
    } else {
        prove(D, gget::<u8, 131>() == MAPPED && ghas::<103>());
        let m = gget::<Map<'a>, 103>();
        let c = gget::<usize, 108>();
        prove(D, c < m.len());
        some_element(r, m[c].0.as_ref());
        if ghas::<109>() {
            gset::<u8, 107>(0);
        }
        refuse_some()?;
        gset::<usize, 108>(c + 1);
    }
    let v: Positive = any();
    valid(v.raw_value());
    gset::<u64, 109>(crate::numbers::number(v.raw_value()));
    Ok(v)
}
/// the decoder of a field
pub fn decode<'a, const N: usize>(r: &mut Reader<'a>) -> Result<Op<N>, DecodeError> {
    let mut x: u64 = any();
    match gget::<u8, 131>() {
        ARR => {
            if N == 9 {
                prove(D, ghas::<120>() && !ghas::<122>());
                let a = gget::<Array<'a>, 120>();
                let c = gget::<usize, 121>();
                prove(D, c < a.len());
                some_element(r, a[c].as_ref());
                gset::<usize, 121>(c + 1);
                x = c as u64;
            } else {
                prove(D, ghas::<101>());
                let a = gget::<Array<'a>, 101>();
                let k = N - 1 + gget::<usize, 130>();
                prove(D, k < a.len());
                some_element(r, a[k].as_ref());
            }
        }
        FLAT => {
            prove(D, N == gget::<usize, 133>());
            prove(D, r.consumed_bytes() == gget::<usize, 132>());
            same(D, reader_slice(r), gget::<&'a [u8], 134>());
            read_on(r);
            gset::<usize, 133>(N + 1);
            gset::<usize, 132>(r.consumed_bytes());
        }
        MAPPED => {
            prove(D, ghas::<103>() && ghas::<109>());
            let m = gget::<Map<'a>, 103>();
            let c = gget::<usize, 108>();
            prove(D, gget::<u64, 109>() == gget::<[u64; 6], 135>()[N]);
            some_element(r, m[c - 1].1.as_ref());
            gdel::<109>();
            if has(N) {
                gset::<u8, 141>(0);
            }
        }
        _ => {
            let i = gget::<usize, 104>();
            let d = gget::<&'a [u8], 0>();
            prove(D, r.consumed_bytes() == i);
            same(D, reader_slice(r), d);
            prove(D, i < d.len());
            match kind_of(d[i]) {
                Ok(k) => prove(D, k as usize == N),
                Err(_) => fail(D, "nothing to decode"),
            }
            read_on(r);
            gset::<usize, 136>(r.consumed_bytes());
        }
    }
    if nondet() {
        if N == 9 {
            gset::<u8, 122>(0);
        }
        gset::<u8, 102>(0);
        let e: DecodeErrorKind = any();
        return Err(e.context::<Op<N>>());
    }
    if gget::<u8, 131>() == TYPED {
        gset::<u64, 142>(x);
    } else if N != 9 {
        set(N, x);
    }
    Ok(op_of::<N>(x))
}
/// nothing that was read is refused or forgotten
pub fn clean(p: u64, r: &Reader, tag: Option<u64>) {
    prove(p, !ghas::<102>());
    prove(p, !ghas::<141>());
    prove(p, !ghas::<107>());
    match tag {
        Some(n) => {
            prove(p, ghas::<105>());
            prove(p, gget::<Tag, 105>().value() == n);
        }
        None => prove(p, !ghas::<105>()),
    }
    if gget::<u8, 131>() == FLAT && tag.is_none() {
        prove(p, r.consumed_bytes() == gget::<usize, 132>());
    } else {
        prove(p, r.consumed_bytes() == gget::<usize, 136>());
    }
}
/// it could not be decoded
pub fn refused(tag: Option<u64>) -> bool {
    if ghas::<102>() || gget::<u8, 106>() == 1 {
        return true;
    }
    match tag {
        Some(n) => ghas::<105>() && gget::<Tag, 105>().value() != n,
        None => false,
    }
}
pub fn items() -> usize {
    gget::<Array, 101>().len()
}
/// the array is there, but has not this length
pub fn other_length(n: usize) -> bool {
    ghas::<101>() && items() != n
}
pub fn number_is(n: u64) -> bool {
    ghas::<109>() && gget::<u64, 109>() == n
}
/// the whole map has been looked at
pub fn at_end() -> bool {
    ghas::<103>() && !ghas::<109>() && gget::<usize, 108>() == gget::<Map, 103>().len()
}
pub fn field<const N: usize>(p: u64, v: &Op<N>) {
    prove(p, has(N));
    same(p, v, &op_of::<N>(get(N)));
}
pub fn optional<const N: usize>(p: u64, v: &Option<Op<N>>) {
    match v {
        Some(v) => field(p, v),
        None => prove(p, !has(N)),
    }
}
pub fn vector(p: u64, v: &Vec<Op<9>>) {
    prove(p, ghas::<120>());
    let l = gget::<Array, 120>().len();
    prove(p, gget::<usize, 121>() == l);
    prove(p, v.len() == l);
    let k: usize = any();
    assume(k < l);
    same(p, &v[k], &op_of::<9>(k as u64));
}
