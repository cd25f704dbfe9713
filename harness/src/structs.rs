//! arrays, maps and tags: writing, owned forms, elements
use crate::ops::*;
use crate::spec::*;
use crate::writing::*;
use cbored::state::*;
use cbored::*;

/// the header of an array or a map
pub fn put_len(out: &mut Vec<u8>, major: u8, l: StructureLength) {
    match l {
        StructureLength::Indefinite => out.push(major * 32 + 31),
        StructureLength::Definite(v) => put(out, major, v),
    }
}
pub fn put_break(out: &mut Vec<u8>, l: StructureLength) {
    if let StructureLength::Indefinite = l {
        out.push(0xff);
    }
}

// ------------------------------------------------------------ with a state machine that answers anything
/// what was read is written back as it was read (whatever the elements)
macro_rules! rewrite {
    ($name:ident, $m:ident) => {
        pub fn $name(d: &[u8], prefix: Vec<u8>) {
            let mut r = some_reader(d);
            let i = r.consumed_bytes();
            if let Ok(v) = r.$m() {
                let mut out = prefix.clone();
                out.extend_from_slice(slice_of(d, i, r.consumed_bytes()));
                let mut w = Writer::new_from_vec(prefix);
                w.$m(&v);
                same(C10 | C40, &w.finalize(), &out);
            }
        }
    };
}
rewrite!(array_read, array);
rewrite!(map_read, map);
rewrite!(tag_read, tag);

/// the header that was read, and what the elements are cut from (that each is an item is C12)
pub fn array_shape(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    let h = header_at(d, i);
    if let Ok(a) = r.array() {
        match h {
            Ok(h) => {
                prove(C09, h.kind == ARRAY);
                tiles(&h, a.struct_len(), a.len());
                let w = written(&a);
                same(C09, w.as_slice(), slice_of(d, i, r.consumed_bytes()));
            }
            Err(_) => fail(C09, "there is no array"),
        }
    }
}
pub fn map_shape(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    let h = header_at(d, i);
    if let Ok(a) = r.map() {
        match h {
            Ok(h) => {
                prove(C09, h.kind == MAP);
                tiles(&h, a.struct_len(), a.len());
                let w = written(&a);
                same(C09, w.as_slice(), slice_of(d, i, r.consumed_bytes()));
            }
            Err(_) => fail(C09, "there is no map"),
        }
    }
}
fn tiles(h: &H, l: StructureLength, n: usize) {
    match l {
        StructureLength::Indefinite => prove(C09, h.indef),
        StructureLength::Definite(v) => {
            prove(C09, !h.indef);
            prove(C09, v.to_u64() == h.val);
            prove(C09, n as u64 == h.val);
        }
    }
}
pub fn tag_shape(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    let h = header_at(d, i);
    if let Ok(t) = r.tag() {
        match h {
            Ok(h) => {
                prove(C02 | C09, h.kind == TAG);
                prove(C02 | C09, t.value() == h.val);
                let mut head = Vec::new();
                put(&mut head, 6, t.tag_repr().raw_value());
                same(C02 | C09, head.as_slice(), slice_of(d, i, i + h.adv));
                let e = t.data();
                same(C09, e.as_ref(), slice_of(d, i + h.adv, r.consumed_bytes()));
                prove(C09, r.consumed_bytes() > i + h.adv);
            }
            Err(_) => fail(C02 | C09, "there is no tag"),
        }
    }
}

/// through the owned form
macro_rules! owned {
    ($name:ident, $m:ident, $x:ident, $y:ident => $more:expr) => {
        pub fn $name(d: &[u8]) {
            let mut r = some_reader(d);
            let i = r.consumed_bytes();
            if let Ok($x) = r.$m() {
                let o = $x.owned();
                let $y = o.borrow();
                let w = written(&$y);
                same(C27, w.as_slice(), slice_of(d, i, r.consumed_bytes()));
                $more;
            }
        }
    };
}
owned!(array_owned, array, x, y => {
    prove(C27, x.len() == y.len());
    same(C27, &x.struct_len(), &y.struct_len());
    let k: usize = any();
    assume(k < x.len());
    same(C27, x[k].as_ref(), y[k].as_ref());
});
owned!(map_owned, map, x, y => {
    prove(C27, x.len() == y.len());
    same(C27, &x.struct_len(), &y.struct_len());
    let k: usize = any();
    assume(k < x.len());
    same(C27, x[k].0.as_ref(), y[k].0.as_ref());
    same(C27, x[k].1.as_ref(), y[k].1.as_ref());
});
owned!(tag_owned, tag, x, y => {
    same(C27, &x.tag_repr().raw_value(), &y.tag_repr().raw_value());
    same(C27, x.data().as_ref(), y.data().as_ref());
});
owned!(data_owned, data, x, y => match (&x, &y) {
    (Data::Positive(a), Data::Positive(b)) => same(C27, a, b),
    (Data::Negative(a), Data::Negative(b)) => same(C27, a, b),
    (Data::Float(a), Data::Float(b)) => same(C27, a, b),
    (Data::Byte(a), Data::Byte(b)) => same(C27, a, b),
    (Data::Bytes(_), Data::Bytes(_)) => (),
    (Data::Text(_), Data::Text(_)) => (),
    (Data::Array(_), Data::Array(_)) => (),
    (Data::Map(_), Data::Map(_)) => (),
    (Data::Tag(_), Data::Tag(_)) => (),
    (Data::True, Data::True) => (),
    (Data::False, Data::False) => (),
    (Data::Null, Data::Null) => (),
    (Data::Undefined, Data::Undefined) => (),
    _ => fail(C27, "another variant"),
});
owned!(bytes_owned, bytes, x, y => match (&x, &y) {
    (Bytes::Imm(a), Bytes::Imm(b)) => {
        same(C27, &a.value(), &b.value());
        same(C27, a.as_slice(), b.as_slice());
    }
    (Bytes::Chunks(a), Bytes::Chunks(b)) => {
        prove(C27, a.len() == b.len());
        let k: usize = any();
        assume(k < a.len());
        same(C27, &a[k].value(), &b[k].value());
        same(C27, a[k].as_slice(), b[k].as_slice());
    }
    _ => fail(C27, "chunking is lost"),
});
owned!(text_owned, text, x, y => match (&x, &y) {
    (Text::Imm(a), Text::Imm(b)) => {
        same(C27, &a.value(), &b.value());
        same(C27, a.as_str(), b.as_str());
    }
    (Text::Chunks(a), Text::Chunks(b)) => {
        prove(C27, a.len() == b.len());
        let k: usize = any();
        assume(k < a.len());
        same(C27, &a[k].value(), &b[k].value());
        same(C27, a[k].as_str(), b[k].as_str());
    }
    _ => fail(C27, "chunking is lost"),
});

// ------------------------------------------------------------ builders
pub fn builder_finite(d: &[u8], prefix: Vec<u8>) {
    builder(d, prefix, true)
}
pub fn builder_indefinite(d: &[u8], prefix: Vec<u8>) {
    builder(d, prefix, false)
}
fn builder(d: &[u8], prefix: Vec<u8>, finite: bool) {
    let mut b = ArrayBuilder::new();
    let mut n = 0u64;
    while nondet() {
        assume(n < u64::MAX);
        b.append(cbor_of(part(d)).to_owned());
        n += 1;
    }
    let a = if finite { b.finite() } else { b.indefinite() };
    prove(C28, a.len() as u64 == n);
    let l = if finite {
        StructureLength::Definite(crate::numbers::shortest(n))
    } else {
        StructureLength::Indefinite
    };
    same(C28, &a.struct_len(), &l);
    let mut out = prefix.clone();
    put_len(&mut out, 4, l);
    let mut it = a.iter();
    while let Some(e) = it.next() {
        out.extend_from_slice(reader_slice(&e));
    }
    put_break(&mut out, l);
    let mut w = Writer::new_from_vec(prefix);
    w.array(&a.borrow());
    same(C10 | C28 | C40, &w.finalize(), &out);
}
/// what is at any one place is what was put there
pub fn builder_index(d: &[u8]) {
    let mut b = ArrayBuilder::new();
    let mut n = 0usize;
    while nondet() {
        assume(n < d.len());
        b.append(cbor_of(slice_of(d, 0, n)).to_owned());
        n += 1;
    }
    let a = if nondet() { b.finite() } else { b.indefinite() };
    prove(C28, a.len() == n);
    let k: usize = any();
    assume(k < n);
    same(C28, a[k].as_ref(), slice_of(d, 0, k));
}
pub fn builder_encodable(x: &Op<0>) {
    let mut b = ArrayBuilder::new();
    b.append_encodable(x);
    let a = b.finite();
    prove(C28, a.len() == 1);
    same(C28, a[0].as_ref(), op_bytes(x));
}
fn some_len() -> StructureLength {
    let l: StructureLength = any();
    if let StructureLength::Definite(v) = l {
        valid(v);
    }
    l
}
pub fn array_closure(x: &Op<0>, prefix: Vec<u8>) {
    let l = some_len();
    let mut out = prefix.clone();
    put_len(&mut out, 4, l);
    out.extend_from_slice(op_bytes(x));
    put_break(&mut out, l);
    let mut w = Writer::new_from_vec(prefix);
    w.array_build(l, |w| w.encode(x));
    same(C10 | C40, &w.finalize(), &out);
}
pub fn map_closure(x: &Op<0>, prefix: Vec<u8>) {
    let l = some_len();
    let mut out = prefix.clone();
    put_len(&mut out, 5, l);
    out.extend_from_slice(op_bytes(x));
    put_break(&mut out, l);
    let mut w = Writer::new_from_vec(prefix);
    w.map_build(l, |w| w.encode(x));
    same(C10 | C40, &w.finalize(), &out);
}
pub fn tag_closure(x: &Op<0>, prefix: Vec<u8>) {
    let t: TagValue = any();
    valid(t.raw_value());
    let mut out = prefix.clone();
    put(&mut out, 6, t.raw_value());
    out.extend_from_slice(op_bytes(x));
    let mut w = Writer::new_from_vec(prefix);
    w.tag_build(t, |w| w.encode(x));
    same(C10 | C40, &w.finalize(), &out);
}

// ------------------------------------------------------------ what containers show
/// a reader at the start of exactly these bytes
fn fresh(r: &Reader, e: &[u8]) {
    prove(C28, r.consumed_bytes() == 0);
    same(C28, reader_slice(r), e);
}
macro_rules! view_array {
    ($a:ident) => {{
        let l = $a.len();
        let mut k = 0usize;
        let mut it = $a.iter();
        while let Some(e) = it.next() {
            prove(C28, k < l);
            fresh(&e, $a[k].as_ref());
            k += 1;
        }
        prove(C28, k == l);
    }};
}
macro_rules! vec_array {
    ($a:ident) => {{
        let l = $a.len();
        gset::<usize, 4>(0);
        let v = $a.to_vec(|e| {
            prove(C28, !ghas::<5>());
            let k = gget::<usize, 4>();
            prove(C28, k < l);
            fresh(e, $a[k].as_ref());
            gset::<usize, 4>(k + 1);
            if nondet() {
                gset::<u8, 5>(0);
                return Err(DecodeErrorKind::ReaderNotTerminated { remaining_bytes: k });
            }
            Ok(k as u64)
        });
        let n = gget::<usize, 4>();
        match v {
            Ok(v) => {
                prove(C28, !ghas::<5>());
                prove(C28, n == l);
                prove(C28, v.len() == l);
                let j: usize = any();
                assume(j < l);
                prove(C28, v[j] == j as u64);
            }
            Err(DecodeErrorKind::ReaderNotTerminated { remaining_bytes }) => {
                prove(C28, ghas::<5>());
                prove(C28, remaining_bytes + 1 == n);
            }
            Err(_) => fail(C28, "another error"),
        }
    }};
}
macro_rules! view_map {
    ($a:ident, $m:ident, $x:ident, $r:ident => $k:expr) => {{
        let l = $a.len();
        let mut k = 0usize;
        let mut it = $a.$m();
        while let Some($r) = it.next() {
            prove(C28, k < l);
            let $x = &$a[k];
            $k;
            k += 1;
        }
        prove(C28, k == l);
    }};
}
macro_rules! vec_map {
    ($a:ident, $b:ident) => {{
        let l = $a.len();
        gset::<usize, 4>(0);
        gset::<usize, 6>(0);
        let v = $a.to_vec(
            |e| {
                prove(C28, !ghas::<5>());
                let k = gget::<usize, 4>();
                prove(C28, k < l);
                prove(C28, k == gget::<usize, 6>());
                fresh(e, $b[k].0.as_ref());
                gset::<usize, 4>(k + 1);
                if nondet() {
                    gset::<u8, 5>(0);
                    return Err(DecodeErrorKind::ReaderNotTerminated { remaining_bytes: k });
                }
                Ok(k as u64)
            },
            |e| {
                prove(C28, !ghas::<5>());
                let k = gget::<usize, 6>();
                prove(C28, k < l);
                prove(C28, k + 1 == gget::<usize, 4>());
                fresh(e, $b[k].1.as_ref());
                gset::<usize, 6>(k + 1);
                if nondet() {
                    gset::<u8, 5>(0);
                    return Err(DecodeErrorKind::ReaderNotTerminated { remaining_bytes: k });
                }
                Ok(k as u64)
            },
        );
        let n = gget::<usize, 4>();
        match v {
            Ok(v) => {
                prove(C28, !ghas::<5>());
                prove(C28, n == l);
                prove(C28, gget::<usize, 6>() == l);
                prove(C28, v.len() == l);
                let j: usize = any();
                assume(j < l);
                prove(C28, v[j].0 == j as u64);
                prove(C28, v[j].1 == j as u64);
            }
            Err(DecodeErrorKind::ReaderNotTerminated { remaining_bytes }) => {
                prove(C28, ghas::<5>());
                prove(C28, remaining_bytes + 1 == n);
            }
            Err(_) => fail(C28, "another error"),
        }
    }};
}
macro_rules! views {
    ($name:ident, $m:ident, $a:ident, $o:ident => $e:expr) => {
        pub fn $name(d: &[u8]) {
            let mut r = some_reader(d);
            if let Ok($a) = r.$m() {
                let $o = $a.owned();
                $e;
            }
        }
    };
}
views!(view_array, array, a, _o => view_array!(a));
views!(view_array_owned, array, _a, o => view_array!(o));
views!(vec_array, array, a, _o => vec_array!(a));
views!(vec_array_owned, array, _a, o => vec_array!(o));
views!(view_map, map, a, _o => {
    view_map!(a, iter, x, r => {
        fresh(&r.0, x.0.as_ref());
        fresh(&r.1, x.1.as_ref());
    })
});
views!(view_keys, map, a, _o => view_map!(a, keys, x, r => fresh(&r, x.0.as_ref())));
views!(view_values, map, a, _o => view_map!(a, values, x, r => fresh(&r, x.1.as_ref())));
views!(vec_map, map, a, _o => vec_map!(a, a));
// (an owned map has no index of its own: what it holds is what C27 compares)
macro_rules! view_owned_map {
    ($o:ident, $a:ident, $m:ident, $x:ident, $r:ident => $k:expr) => {{
        let l = $o.len();
        prove(C28, l == $a.len());
        let mut k = 0usize;
        let mut it = $o.$m();
        while let Some($r) = it.next() {
            prove(C28, k < l);
            let $x = &$a[k];
            $k;
            k += 1;
        }
        prove(C28, k == l);
    }};
}
views!(view_map_owned, map, a, o => {
    view_owned_map!(o, a, iter, x, r => {
        fresh(&r.0, x.0.as_ref());
        fresh(&r.1, x.1.as_ref());
    })
});
views!(view_keys_owned, map, a, o => view_owned_map!(o, a, keys, x, r => fresh(&r, x.0.as_ref())));
views!(view_values_owned, map, a, o => view_owned_map!(o, a, values, x, r => fresh(&r, x.1.as_ref())));
views!(vec_map_owned, map, a, o => vec_map!(o, a));
pub fn view_tag(d: &[u8]) {
    let mut r = some_reader(d);
    if let Ok(t) = r.tag() {
        let s = t.data();
        let e = s.as_ref();
        prove(C28, t.value() == t.tag_repr().raw_value().to_u64());
        fresh(&t.reader(), e);
        let o = t.owned();
        same(C28, o.data().as_ref(), e);
        prove(C28, o.value() == t.value());
        fresh(&o.read_data(), e);
    }
}
