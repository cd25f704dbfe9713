//! where items end, against a state machine that checks what it is told (see model::ghost)
use crate::ops::*;
use crate::spec::*;
use cbored::validate::*;
use cbored::*;

fn watch<'a>(d: &'a [u8]) {
    gset::<&'a [u8], 0>(d);
    gset::<usize, 3>(0);
    gset::<usize, 4>(0);
    gset::<bool, 6>(false);
    gset::<bool, 7>(false);
    gset::<bool, 8>(false);
    gset::<usize, 10>(0);
}
/// nothing more can be read: the machine refused, or the next element is not there completely
fn reason(d: &[u8]) -> bool {
    if gget::<bool, 8>() || gget::<bool, 7>() {
        return true;
    }
    let g = gget::<usize, 3>();
    match header_at(d, g) {
        Err(_) => true,
        Ok(h) => (h.kind == BYTES || h.kind == TEXT) && !h.indef && h.val > (d.len() - g - h.adv) as u64,
    }
}

fn next(v: &mut Validator, d: &[u8]) {
    let i = d.len() - v.remaining_bytes();
    gset::<usize, 3>(i);
    gset::<bool, 7>(false);
    match v.next() {
        Ok((s, n)) => {
            let g = gget::<usize, 3>();
            // one item was completed, it is the last thing that the machine was told of, and all of it is answered
            prove(C11, !gget::<bool, 7>());
            prove(C11, !gget::<bool, 8>());
            prove(C11, !gget::<bool, 6>());
            prove(C11, gget::<usize, 4>() == g);
            prove(C11, gget::<usize, 10>() == i);
            prove(C11, n == g - i);
            prove(C11, n > 0);
            prove(C11, v.remaining_bytes() == d.len() - g);
            same(C11, s.as_ref(), slice_of(d, i, g));
        }
        Err(_) => prove(C11, reason(d)),
    }
}
/// any number of items, whatever came before
pub fn validator(d: &[u8]) {
    watch(d);
    let mut v = Validator::new(d);
    while nondet() {
        next(&mut v, d);
    }
}

/// the elements that reading a structure cuts out are the items that the machine completed, in order, each
/// whole; and a structure is only refused when one of them is
fn array(d: &[u8], indef: bool, adv: usize) {
    watch(d);
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    if let Ok(h) = header_at(d, i) {
        if h.kind == ARRAY && h.indef == indef && h.adv == adv {
            gset::<usize, 3>(i + h.adv);
            gset::<usize, 4>(i + h.adv);
            gset::<Vec<&CborSlice>, 12>(Vec::new());
            match r.array() {
                Ok(a) => {
                    settled();
                    let items = gget::<Vec<&CborSlice>, 12>();
                    prove(C12, items.len() == a.len());
                    let k: usize = any();
                    assume(k < a.len());
                    assume(k < items.len());
                    same(C12, a[k].as_ref(), items[k].as_ref());
                    ended(d, &h, a.len() as u64, r.consumed_bytes());
                }
                Err(_) => prove(C12, reason(d)),
            }
        }
    }
}
fn map(d: &[u8], indef: bool, adv: usize) {
    watch(d);
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    if let Ok(h) = header_at(d, i) {
        if h.kind == MAP && h.indef == indef && h.adv == adv {
            gset::<usize, 3>(i + h.adv);
            gset::<usize, 4>(i + h.adv);
            gset::<Vec<(&CborSlice, &CborSlice)>, 13>(Vec::new());
            gset::<bool, 14>(false);
            gset::<&CborSlice, 15>(cbor_of(d));
            match r.map() {
                Ok(a) => {
                    settled();
                    prove(C12, !gget::<bool, 14>());
                    let items = gget::<Vec<(&CborSlice, &CborSlice)>, 13>();
                    prove(C12, items.len() == a.len());
                    let k: usize = any();
                    assume(k < a.len());
                    assume(k < items.len());
                    same(C12, a[k].0.as_ref(), items[k].0.as_ref());
                    same(C12, a[k].1.as_ref(), items[k].1.as_ref());
                    ended(d, &h, a.len() as u64, r.consumed_bytes());
                }
                Err(_) => prove(C12, reason(d)),
            }
        }
    }
}
pub fn tag(d: &[u8]) {
    watch(d);
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    if let Ok(h) = header_at(d, i) {
        if h.kind == TAG {
            gset::<usize, 3>(i + h.adv);
            gset::<usize, 4>(i + h.adv);
            match r.tag() {
                Ok(t) => {
                    settled();
                    prove(C12, gget::<usize, 10>() == i + h.adv);
                    same(C12, t.data().as_ref(), slice_of(d, i + h.adv, gget::<usize, 3>()));
                    prove(C12, r.consumed_bytes() == gget::<usize, 3>());
                }
                Err(_) => prove(C12, reason(d)),
            }
        }
    }
}
/// nothing was refused, and nothing is left open
fn settled() {
    prove(C12, !gget::<bool, 7>());
    prove(C12, !gget::<bool, 8>());
    prove(C12, !gget::<bool, 6>());
    prove(C12, gget::<usize, 4>() == gget::<usize, 3>());
}
/// there are as many as declared, or a break follows
fn ended(d: &[u8], h: &H, n: u64, j: usize) {
    let g = gget::<usize, 3>();
    if h.indef {
        prove(C12, j == g + 1);
        match header_at(d, g) {
            Ok(b) => prove(C12, b.kind == BREAK),
            Err(_) => fail(C12, "there is no break"),
        }
    } else {
        prove(C12, n == h.val);
        prove(C12, j == g);
    }
}
macro_rules! exact {
    ($name:ident, $m:ident) => {
        pub fn $name(d: &[u8]) {
            watch(d);
            let mut r = some_reader(d);
            let i = r.consumed_bytes();
            gset::<usize, 3>(i);
            gset::<usize, 4>(i);
            if let Ok(t) = r.$m::<Op<0>>() {
                settled();
                prove(C12, gget::<usize, 10>() == i);
                same(C12, t.untype().as_ref(), slice_of(d, i, gget::<usize, 3>()));
                prove(C12, r.consumed_bytes() == gget::<usize, 3>());
            }
        }
    };
}
exact!(exact_slice, exact_decodable_slice);
exact!(exact_data, exact_decodable_data);

// (one program for each form of the header)
macro_rules! each {
    ($($name:ident = $m:ident $indef:expr, $adv:expr;)*) => { $(
        pub fn $name(d: &[u8]) {
            $m(d, $indef, $adv)
        }
    )* };
}
each! {
    array_indefinite = array true, 1;
    array_1 = array false, 1;
    array_2 = array false, 2;
    array_3 = array false, 3;
    array_5 = array false, 5;
    array_9 = array false, 9;
    map_indefinite = map true, 1;
    map_1 = map false, 1;
    map_2 = map false, 2;
    map_3 = map false, 3;
    map_5 = map false, 5;
    map_9 = map false, 9;
}
