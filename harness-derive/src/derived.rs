//! (written by tools/genderive.py: definitions of every form, and what encoding and decoding have to do)
use crate::generated::*;
use crate::numbers::shortest;
use crate::ops::*;
use crate::spec::*;
use crate::writing::*;
use cbored::*;
use def::*;

pub fn array_one_encode(x: &Arrayone, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 4, shortest(1));
    out.extend_from_slice(op_bytes(&x.a));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C32, &w.finalize(), &out);
}
pub fn array_one_decode(d: &[u8]) {
    let mut r = start(d, ARR, 0);
    match r.decode::<Arrayone>() {
        Ok(v) => {
            clean(C32, &r, None);
            field(C32, &v.a);
            prove(C32, items() == 1);
        }
        Err(_) => prove(C32, refused(None) || other_length(1)),
    }
}
pub fn array_two_encode(x: &Arraytwo, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 4, shortest(2));
    out.extend_from_slice(op_bytes(&x.a));
    out.extend_from_slice(op_bytes(&x.b));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C32, &w.finalize(), &out);
}
pub fn array_two_decode(d: &[u8]) {
    let mut r = start(d, ARR, 0);
    match r.decode::<Arraytwo>() {
        Ok(v) => {
            clean(C32, &r, None);
            field(C32, &v.a);
            field(C32, &v.b);
            prove(C32, items() == 2);
        }
        Err(_) => prove(C32, refused(None) || other_length(2)),
    }
}
pub fn array_three_encode(x: &Arraythree, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 4, shortest(3));
    out.extend_from_slice(op_bytes(&x.a));
    out.extend_from_slice(op_bytes(&x.b));
    out.extend_from_slice(op_bytes(&x.c));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C32, &w.finalize(), &out);
}
pub fn array_three_decode(d: &[u8]) {
    let mut r = start(d, ARR, 0);
    match r.decode::<Arraythree>() {
        Ok(v) => {
            clean(C32, &r, None);
            field(C32, &v.a);
            field(C32, &v.b);
            field(C32, &v.c);
            prove(C32, items() == 3);
        }
        Err(_) => prove(C32, refused(None) || other_length(3)),
    }
}
pub fn array_five_encode(x: &Arrayfive, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 4, shortest(5));
    out.extend_from_slice(op_bytes(&x.a));
    out.extend_from_slice(op_bytes(&x.b));
    out.extend_from_slice(op_bytes(&x.c));
    out.extend_from_slice(op_bytes(&x.d));
    out.extend_from_slice(op_bytes(&x.e));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C32, &w.finalize(), &out);
}
pub fn array_five_decode(d: &[u8]) {
    let mut r = start(d, ARR, 0);
    match r.decode::<Arrayfive>() {
        Ok(v) => {
            clean(C32, &r, None);
            field(C32, &v.a);
            field(C32, &v.b);
            field(C32, &v.c);
            field(C32, &v.d);
            field(C32, &v.e);
            prove(C32, items() == 5);
        }
        Err(_) => prove(C32, refused(None) || other_length(5)),
    }
}
pub fn array_tag_one_encode(x: &Arraytagone, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 6, shortest(0));
    put(&mut out, 4, shortest(1));
    out.extend_from_slice(op_bytes(&x.a));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C32, &w.finalize(), &out);
}
pub fn array_tag_one_decode(d: &[u8]) {
    let mut r = start(d, ARR, 0);
    match r.decode::<Arraytagone>() {
        Ok(v) => {
            clean(C32, &r, Some(0));
            field(C32, &v.a);
            prove(C32, items() == 1);
        }
        Err(_) => prove(C32, refused(Some(0)) || other_length(1)),
    }
}
pub fn array_tag_encode(x: &Arraytag, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 6, shortest(55));
    put(&mut out, 4, shortest(3));
    out.extend_from_slice(op_bytes(&x.a));
    out.extend_from_slice(op_bytes(&x.b));
    out.extend_from_slice(op_bytes(&x.c));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C32, &w.finalize(), &out);
}
pub fn array_tag_decode(d: &[u8]) {
    let mut r = start(d, ARR, 0);
    match r.decode::<Arraytag>() {
        Ok(v) => {
            clean(C32, &r, Some(55));
            field(C32, &v.a);
            field(C32, &v.b);
            field(C32, &v.c);
            prove(C32, items() == 3);
        }
        Err(_) => prove(C32, refused(Some(55)) || other_length(3)),
    }
}
pub fn array_tag_big_encode(x: &Arraytagbig, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 6, shortest(1099511627776));
    put(&mut out, 4, shortest(2));
    out.extend_from_slice(op_bytes(&x.a));
    out.extend_from_slice(op_bytes(&x.b));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C32, &w.finalize(), &out);
}
pub fn array_tag_big_decode(d: &[u8]) {
    let mut r = start(d, ARR, 0);
    match r.decode::<Arraytagbig>() {
        Ok(v) => {
            clean(C32, &r, Some(1099511627776));
            field(C32, &v.a);
            field(C32, &v.b);
            prove(C32, items() == 2);
        }
        Err(_) => prove(C32, refused(Some(1099511627776)) || other_length(2)),
    }
}
pub fn array_tuple_encode(x: &Arraytuple, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 4, shortest(3));
    out.extend_from_slice(op_bytes(&x.0));
    out.extend_from_slice(op_bytes(&x.1));
    out.extend_from_slice(op_bytes(&x.2));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C32, &w.finalize(), &out);
}
pub fn array_tuple_decode(d: &[u8]) {
    let mut r = start(d, ARR, 0);
    match r.decode::<Arraytuple>() {
        Ok(v) => {
            clean(C32, &r, None);
            field(C32, &v.0);
            field(C32, &v.1);
            field(C32, &v.2);
            prove(C32, items() == 3);
        }
        Err(_) => prove(C32, refused(None) || other_length(3)),
    }
}
pub fn array_tuple_one_encode(x: &Arraytupleone, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 4, shortest(1));
    out.extend_from_slice(op_bytes(&x.0));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C32, &w.finalize(), &out);
}
pub fn array_tuple_one_decode(d: &[u8]) {
    let mut r = start(d, ARR, 0);
    match r.decode::<Arraytupleone>() {
        Ok(v) => {
            clean(C32, &r, None);
            field(C32, &v.0);
            prove(C32, items() == 1);
        }
        Err(_) => prove(C32, refused(None) || other_length(1)),
    }
}
pub fn array_tuple_tag_encode(x: &Arraytupletag, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 6, shortest(300));
    put(&mut out, 4, shortest(2));
    out.extend_from_slice(op_bytes(&x.0));
    out.extend_from_slice(op_bytes(&x.1));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C32, &w.finalize(), &out);
}
pub fn array_tuple_tag_decode(d: &[u8]) {
    let mut r = start(d, ARR, 0);
    match r.decode::<Arraytupletag>() {
        Ok(v) => {
            clean(C32, &r, Some(300));
            field(C32, &v.0);
            field(C32, &v.1);
            prove(C32, items() == 2);
        }
        Err(_) => prove(C32, refused(Some(300)) || other_length(2)),
    }
}
pub fn array_vec_decode(d: &[u8]) {
    let mut r = start(d, ARR, 0);
    gset::<usize, 137>(1);
    match r.decode::<Arrayvec>() {
        Ok(v) => {
            clean(C32, &r, None);
            field(C32, &v.a);
            vector(C32, &v.b);
            field(C32, &v.c);
            prove(C32, items() == 3);
        }
        Err(_) => prove(C32, refused(None) || other_length(3)),
    }
}
pub fn lastopt_one_encode(x: &Lastoptone, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 4, shortest(0 + x.a.is_some() as u64));
    if let Some(v) = &x.a { out.extend_from_slice(op_bytes(v)); }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C32, &w.finalize(), &out);
}
pub fn lastopt_one_decode(d: &[u8]) {
    let mut r = start(d, ARR, 0);
    match r.decode::<Lastoptone>() {
        Ok(v) => {
            clean(C32, &r, None);
            optional(C32, &v.a);
            prove(C32, items() == 0 + v.a.is_some() as usize);
        }
        Err(_) => prove(C32, refused(None) || (other_length(1) && other_length(0))),
    }
}
pub fn lastopt_two_encode(x: &Lastopttwo, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 4, shortest(1 + x.b.is_some() as u64));
    out.extend_from_slice(op_bytes(&x.a));
    if let Some(v) = &x.b { out.extend_from_slice(op_bytes(v)); }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C32, &w.finalize(), &out);
}
pub fn lastopt_two_decode(d: &[u8]) {
    let mut r = start(d, ARR, 0);
    match r.decode::<Lastopttwo>() {
        Ok(v) => {
            clean(C32, &r, None);
            field(C32, &v.a);
            optional(C32, &v.b);
            prove(C32, items() == 1 + v.b.is_some() as usize);
        }
        Err(_) => prove(C32, refused(None) || (other_length(2) && other_length(1))),
    }
}
pub fn lastopt_four_encode(x: &Lastoptfour, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 4, shortest(3 + x.d.is_some() as u64));
    out.extend_from_slice(op_bytes(&x.a));
    out.extend_from_slice(op_bytes(&x.b));
    out.extend_from_slice(op_bytes(&x.c));
    if let Some(v) = &x.d { out.extend_from_slice(op_bytes(v)); }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C32, &w.finalize(), &out);
}
pub fn lastopt_four_decode(d: &[u8]) {
    let mut r = start(d, ARR, 0);
    match r.decode::<Lastoptfour>() {
        Ok(v) => {
            clean(C32, &r, None);
            field(C32, &v.a);
            field(C32, &v.b);
            field(C32, &v.c);
            optional(C32, &v.d);
            prove(C32, items() == 3 + v.d.is_some() as usize);
        }
        Err(_) => prove(C32, refused(None) || (other_length(4) && other_length(3))),
    }
}
pub fn lastopt_tag_encode(x: &Lastopttag, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 6, shortest(24));
    put(&mut out, 4, shortest(2 + x.c.is_some() as u64));
    out.extend_from_slice(op_bytes(&x.a));
    out.extend_from_slice(op_bytes(&x.b));
    if let Some(v) = &x.c { out.extend_from_slice(op_bytes(v)); }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C32, &w.finalize(), &out);
}
pub fn lastopt_tag_decode(d: &[u8]) {
    let mut r = start(d, ARR, 0);
    match r.decode::<Lastopttag>() {
        Ok(v) => {
            clean(C32, &r, Some(24));
            field(C32, &v.a);
            field(C32, &v.b);
            optional(C32, &v.c);
            prove(C32, items() == 2 + v.c.is_some() as usize);
        }
        Err(_) => prove(C32, refused(Some(24)) || (other_length(3) && other_length(2))),
    }
}
pub fn flat_one_encode(x: &Flatone, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    out.extend_from_slice(op_bytes(&x.a));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C33, &w.finalize(), &out);
}
pub fn flat_one_decode(d: &[u8]) {
    let mut r = start(d, FLAT, 0);
    match r.decode::<Flatone>() {
        Ok(v) => {
            clean(C33, &r, None);
            field(C33, &v.a);
            prove(C33, gget::<usize, 133>() == 2);
        }
        Err(_) => prove(C33, refused(None)),
    }
}
pub fn flat_three_encode(x: &Flatthree, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    out.extend_from_slice(op_bytes(&x.a));
    out.extend_from_slice(op_bytes(&x.b));
    out.extend_from_slice(op_bytes(&x.c));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C33, &w.finalize(), &out);
}
pub fn flat_three_decode(d: &[u8]) {
    let mut r = start(d, FLAT, 0);
    match r.decode::<Flatthree>() {
        Ok(v) => {
            clean(C33, &r, None);
            field(C33, &v.a);
            field(C33, &v.b);
            field(C33, &v.c);
            prove(C33, gget::<usize, 133>() == 4);
        }
        Err(_) => prove(C33, refused(None)),
    }
}
pub fn flat_default_encode(x: &Flatdefault, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    out.extend_from_slice(op_bytes(&x.a));
    out.extend_from_slice(op_bytes(&x.b));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C33, &w.finalize(), &out);
}
pub fn flat_default_decode(d: &[u8]) {
    let mut r = start(d, FLAT, 0);
    match r.decode::<Flatdefault>() {
        Ok(v) => {
            clean(C33, &r, None);
            field(C33, &v.a);
            field(C33, &v.b);
            prove(C33, gget::<usize, 133>() == 3);
        }
        Err(_) => prove(C33, refused(None)),
    }
}
pub fn flat_tuple_one_encode(x: &Flattupleone, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    out.extend_from_slice(op_bytes(&x.0));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C33, &w.finalize(), &out);
}
pub fn flat_tuple_one_decode(d: &[u8]) {
    let mut r = start(d, FLAT, 0);
    match r.decode::<Flattupleone>() {
        Ok(v) => {
            clean(C33, &r, None);
            field(C33, &v.0);
            prove(C33, gget::<usize, 133>() == 2);
        }
        Err(_) => prove(C33, refused(None)),
    }
}
pub fn flat_tuple_encode(x: &Flattuple, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    out.extend_from_slice(op_bytes(&x.0));
    out.extend_from_slice(op_bytes(&x.1));
    out.extend_from_slice(op_bytes(&x.2));
    out.extend_from_slice(op_bytes(&x.3));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C33, &w.finalize(), &out);
}
pub fn flat_tuple_decode(d: &[u8]) {
    let mut r = start(d, FLAT, 0);
    match r.decode::<Flattuple>() {
        Ok(v) => {
            clean(C33, &r, None);
            field(C33, &v.0);
            field(C33, &v.1);
            field(C33, &v.2);
            field(C33, &v.3);
            prove(C33, gget::<usize, 133>() == 5);
        }
        Err(_) => prove(C33, refused(None)),
    }
}
pub fn flat_tag_encode(x: &Flattag, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 6, shortest(70000));
    out.extend_from_slice(op_bytes(&x.a));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C33, &w.finalize(), &out);
}
pub fn flat_tag_decode(d: &[u8]) {
    let mut r = start(d, FLAT, 0);
    match r.decode::<Flattag>() {
        Ok(v) => {
            clean(C33, &r, Some(70000));
            field(C33, &v.a);
            prove(C33, gget::<usize, 133>() == 2);
        }
        Err(_) => prove(C33, refused(Some(70000))),
    }
}
pub fn flat_tuple_tag_encode(x: &Flattupletag, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 6, shortest(5));
    out.extend_from_slice(op_bytes(&x.0));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C33, &w.finalize(), &out);
}
pub fn flat_tuple_tag_decode(d: &[u8]) {
    let mut r = start(d, FLAT, 0);
    match r.decode::<Flattupletag>() {
        Ok(v) => {
            clean(C33, &r, Some(5));
            field(C33, &v.0);
            prove(C33, gget::<usize, 133>() == 2);
        }
        Err(_) => prove(C33, refused(Some(5))),
    }
}
pub fn map_one_encode(x: &Mapone, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 5, shortest(1));
    put(&mut out, 0, shortest(0)); out.extend_from_slice(op_bytes(&x.a));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C34, &w.finalize(), &out);
}
pub fn map_one_decode(d: &[u8]) {
    let mut r = start(d, MAPPED, 0);
    gset::<[u64; 6], 135>([0, 0, 0, 0, 0, 0]);
    match r.decode::<Mapone>() {
        Ok(v) => {
            clean(C34, &r, None);
            field(C34, &v.a);
            prove(C34, at_end());
        }
        Err(_) => prove(C34, refused(None) || (ghas::<109>() && !number_is(0)) || (number_is(0) && has(1)) || ghas::<141>() || (at_end() && !(has(1)))),
    }
}
pub fn map_two_encode(x: &Maptwo, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 5, shortest(2));
    put(&mut out, 0, shortest(0)); out.extend_from_slice(op_bytes(&x.a));
    put(&mut out, 0, shortest(1)); out.extend_from_slice(op_bytes(&x.b));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C34, &w.finalize(), &out);
}
pub fn map_two_decode(d: &[u8]) {
    let mut r = start(d, MAPPED, 0);
    gset::<[u64; 6], 135>([0, 0, 1, 0, 0, 0]);
    match r.decode::<Maptwo>() {
        Ok(v) => {
            clean(C34, &r, None);
            field(C34, &v.a);
            field(C34, &v.b);
            prove(C34, at_end());
        }
        Err(_) => prove(C34, refused(None) || (ghas::<109>() && !number_is(0) && !number_is(1)) || (number_is(0) && has(1)) || (number_is(1) && has(2)) || ghas::<141>() || (at_end() && !(has(1) && has(2)))),
    }
}
pub fn map_opt_encode(x: &Mapopt, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 5, shortest(0 + x.a.is_some() as u64 + x.b.is_some() as u64));
    if let Some(v) = &x.a { put(&mut out, 0, shortest(0)); out.extend_from_slice(op_bytes(v)); }
    if let Some(v) = &x.b { put(&mut out, 0, shortest(1)); out.extend_from_slice(op_bytes(v)); }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C34, &w.finalize(), &out);
}
pub fn map_opt_decode(d: &[u8]) {
    let mut r = start(d, MAPPED, 0);
    gset::<[u64; 6], 135>([0, 0, 1, 0, 0, 0]);
    match r.decode::<Mapopt>() {
        Ok(v) => {
            clean(C34, &r, None);
            optional(C34, &v.a);
            optional(C34, &v.b);
            prove(C34, at_end());
        }
        Err(_) => prove(C34, refused(None) || (ghas::<109>() && !number_is(0) && !number_is(1)) || (number_is(0) && has(1)) || (number_is(1) && has(2)) || ghas::<141>()),
    }
}
pub fn map_mixed_encode(x: &Mapmixed, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 5, shortest(2 + x.c.is_some() as u64));
    put(&mut out, 0, shortest(0)); out.extend_from_slice(op_bytes(&x.a));
    put(&mut out, 0, shortest(1)); out.extend_from_slice(op_bytes(&x.b));
    if let Some(v) = &x.c { put(&mut out, 0, shortest(2)); out.extend_from_slice(op_bytes(v)); }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C34, &w.finalize(), &out);
}
pub fn map_mixed_decode(d: &[u8]) {
    let mut r = start(d, MAPPED, 0);
    gset::<[u64; 6], 135>([0, 0, 1, 2, 0, 0]);
    match r.decode::<Mapmixed>() {
        Ok(v) => {
            clean(C34, &r, None);
            field(C34, &v.a);
            field(C34, &v.b);
            optional(C34, &v.c);
            prove(C34, at_end());
        }
        Err(_) => prove(C34, refused(None) || (ghas::<109>() && !number_is(0) && !number_is(1) && !number_is(2)) || (number_is(0) && has(1)) || (number_is(1) && has(2)) || (number_is(2) && has(3)) || ghas::<141>() || (at_end() && !(has(1) && has(2)))),
    }
}
pub fn map_mixed_first_encode(x: &Mapmixedfirst, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 5, shortest(1 + x.a.is_some() as u64 + x.b.is_some() as u64));
    if let Some(v) = &x.a { put(&mut out, 0, shortest(23)); out.extend_from_slice(op_bytes(v)); }
    if let Some(v) = &x.b { put(&mut out, 0, shortest(24)); out.extend_from_slice(op_bytes(v)); }
    put(&mut out, 0, shortest(25)); out.extend_from_slice(op_bytes(&x.c));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C34, &w.finalize(), &out);
}
pub fn map_mixed_first_decode(d: &[u8]) {
    let mut r = start(d, MAPPED, 0);
    gset::<[u64; 6], 135>([0, 23, 24, 25, 0, 0]);
    match r.decode::<Mapmixedfirst>() {
        Ok(v) => {
            clean(C34, &r, None);
            optional(C34, &v.a);
            optional(C34, &v.b);
            field(C34, &v.c);
            prove(C34, at_end());
        }
        Err(_) => prove(C34, refused(None) || (ghas::<109>() && !number_is(23) && !number_is(24) && !number_is(25)) || (number_is(23) && has(1)) || (number_is(24) && has(2)) || (number_is(25) && has(3)) || ghas::<141>() || (at_end() && !(has(3)))),
    }
}
pub fn map_start_encode(x: &Mapstart, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 5, shortest(1 + x.b.is_some() as u64));
    put(&mut out, 0, shortest(2)); out.extend_from_slice(op_bytes(&x.a));
    if let Some(v) = &x.b { put(&mut out, 0, shortest(3)); out.extend_from_slice(op_bytes(v)); }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C34, &w.finalize(), &out);
}
pub fn map_start_decode(d: &[u8]) {
    let mut r = start(d, MAPPED, 0);
    gset::<[u64; 6], 135>([0, 2, 3, 0, 0, 0]);
    match r.decode::<Mapstart>() {
        Ok(v) => {
            clean(C34, &r, None);
            field(C34, &v.a);
            optional(C34, &v.b);
            prove(C34, at_end());
        }
        Err(_) => prove(C34, refused(None) || (ghas::<109>() && !number_is(2) && !number_is(3)) || (number_is(2) && has(1)) || (number_is(3) && has(2)) || ghas::<141>() || (at_end() && !(has(1)))),
    }
}
pub fn map_start_big_encode(x: &Mapstartbig, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 5, shortest(2));
    put(&mut out, 0, shortest(1099511627776)); out.extend_from_slice(op_bytes(&x.a));
    put(&mut out, 0, shortest(1099511627777)); out.extend_from_slice(op_bytes(&x.b));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C34, &w.finalize(), &out);
}
pub fn map_start_big_decode(d: &[u8]) {
    let mut r = start(d, MAPPED, 0);
    gset::<[u64; 6], 135>([0, 1099511627776, 1099511627777, 0, 0, 0]);
    match r.decode::<Mapstartbig>() {
        Ok(v) => {
            clean(C34, &r, None);
            field(C34, &v.a);
            field(C34, &v.b);
            prove(C34, at_end());
        }
        Err(_) => prove(C34, refused(None) || (ghas::<109>() && !number_is(1099511627776) && !number_is(1099511627777)) || (number_is(1099511627776) && has(1)) || (number_is(1099511627777) && has(2)) || ghas::<141>() || (at_end() && !(has(1) && has(2)))),
    }
}
pub fn map_skip_encode(x: &Mapskip, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 5, shortest(2 + x.b.is_some() as u64));
    put(&mut out, 0, shortest(0)); out.extend_from_slice(op_bytes(&x.a));
    if let Some(v) = &x.b { put(&mut out, 0, shortest(2)); out.extend_from_slice(op_bytes(v)); }
    put(&mut out, 0, shortest(3)); out.extend_from_slice(op_bytes(&x.c));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C34, &w.finalize(), &out);
}
pub fn map_skip_decode(d: &[u8]) {
    let mut r = start(d, MAPPED, 0);
    gset::<[u64; 6], 135>([0, 0, 2, 3, 0, 0]);
    match r.decode::<Mapskip>() {
        Ok(v) => {
            clean(C34, &r, None);
            field(C34, &v.a);
            optional(C34, &v.b);
            field(C34, &v.c);
            prove(C34, at_end());
        }
        Err(_) => prove(C34, refused(None) || (ghas::<109>() && !number_is(0) && !number_is(2) && !number_is(3)) || (number_is(0) && has(1)) || (number_is(2) && has(2)) || (number_is(3) && has(3)) || ghas::<141>() || (at_end() && !(has(1) && has(3)))),
    }
}
pub fn map_skip_first_encode(x: &Mapskipfirst, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 5, shortest(2));
    put(&mut out, 0, shortest(2)); out.extend_from_slice(op_bytes(&x.a));
    put(&mut out, 0, shortest(3)); out.extend_from_slice(op_bytes(&x.b));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C34, &w.finalize(), &out);
}
pub fn map_skip_first_decode(d: &[u8]) {
    let mut r = start(d, MAPPED, 0);
    gset::<[u64; 6], 135>([0, 2, 3, 0, 0, 0]);
    match r.decode::<Mapskipfirst>() {
        Ok(v) => {
            clean(C34, &r, None);
            field(C34, &v.a);
            field(C34, &v.b);
            prove(C34, at_end());
        }
        Err(_) => prove(C34, refused(None) || (ghas::<109>() && !number_is(2) && !number_is(3)) || (number_is(2) && has(1)) || (number_is(3) && has(2)) || ghas::<141>() || (at_end() && !(has(1) && has(2)))),
    }
}
pub fn map_skip_start_encode(x: &Mapskipstart, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 5, shortest(1 + x.b.is_some() as u64 + x.c.is_some() as u64));
    put(&mut out, 0, shortest(2)); out.extend_from_slice(op_bytes(&x.a));
    if let Some(v) = &x.b { put(&mut out, 0, shortest(4)); out.extend_from_slice(op_bytes(v)); }
    if let Some(v) = &x.c { put(&mut out, 0, shortest(6)); out.extend_from_slice(op_bytes(v)); }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C34, &w.finalize(), &out);
}
pub fn map_skip_start_decode(d: &[u8]) {
    let mut r = start(d, MAPPED, 0);
    gset::<[u64; 6], 135>([0, 2, 4, 6, 0, 0]);
    match r.decode::<Mapskipstart>() {
        Ok(v) => {
            clean(C34, &r, None);
            field(C34, &v.a);
            optional(C34, &v.b);
            optional(C34, &v.c);
            prove(C34, at_end());
        }
        Err(_) => prove(C34, refused(None) || (ghas::<109>() && !number_is(2) && !number_is(4) && !number_is(6)) || (number_is(2) && has(1)) || (number_is(4) && has(2)) || (number_is(6) && has(3)) || ghas::<141>() || (at_end() && !(has(1)))),
    }
}
pub fn map_skip_row_encode(x: &Mapskiprow, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 5, shortest(2 + x.a.is_some() as u64));
    if let Some(v) = &x.a { put(&mut out, 0, shortest(1)); out.extend_from_slice(op_bytes(v)); }
    put(&mut out, 0, shortest(5)); out.extend_from_slice(op_bytes(&x.b));
    put(&mut out, 0, shortest(6)); out.extend_from_slice(op_bytes(&x.c));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C34, &w.finalize(), &out);
}
pub fn map_skip_row_decode(d: &[u8]) {
    let mut r = start(d, MAPPED, 0);
    gset::<[u64; 6], 135>([0, 1, 5, 6, 0, 0]);
    match r.decode::<Mapskiprow>() {
        Ok(v) => {
            clean(C34, &r, None);
            optional(C34, &v.a);
            field(C34, &v.b);
            field(C34, &v.c);
            prove(C34, at_end());
        }
        Err(_) => prove(C34, refused(None) || (ghas::<109>() && !number_is(1) && !number_is(5) && !number_is(6)) || (number_is(1) && has(1)) || (number_is(5) && has(2)) || (number_is(6) && has(3)) || ghas::<141>() || (at_end() && !(has(2) && has(3)))),
    }
}
pub fn map_skip_below_encode(x: &Mapskipbelow, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 5, shortest(2));
    put(&mut out, 0, shortest(4)); out.extend_from_slice(op_bytes(&x.a));
    put(&mut out, 0, shortest(5)); out.extend_from_slice(op_bytes(&x.b));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C34, &w.finalize(), &out);
}
pub fn map_skip_below_decode(d: &[u8]) {
    let mut r = start(d, MAPPED, 0);
    gset::<[u64; 6], 135>([0, 4, 5, 0, 0, 0]);
    match r.decode::<Mapskipbelow>() {
        Ok(v) => {
            clean(C34, &r, None);
            field(C34, &v.a);
            field(C34, &v.b);
            prove(C34, at_end());
        }
        Err(_) => prove(C34, refused(None) || (ghas::<109>() && !number_is(4) && !number_is(5)) || (number_is(4) && has(1)) || (number_is(5) && has(2)) || ghas::<141>() || (at_end() && !(has(1) && has(2)))),
    }
}
pub fn map_skip_last_encode(x: &Mapskiplast, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 5, shortest(2 + x.c.is_some() as u64));
    put(&mut out, 0, shortest(10)); out.extend_from_slice(op_bytes(&x.a));
    put(&mut out, 0, shortest(11)); out.extend_from_slice(op_bytes(&x.b));
    if let Some(v) = &x.c { put(&mut out, 0, shortest(13)); out.extend_from_slice(op_bytes(v)); }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C34, &w.finalize(), &out);
}
pub fn map_skip_last_decode(d: &[u8]) {
    let mut r = start(d, MAPPED, 0);
    gset::<[u64; 6], 135>([0, 10, 11, 13, 0, 0]);
    match r.decode::<Mapskiplast>() {
        Ok(v) => {
            clean(C34, &r, None);
            field(C34, &v.a);
            field(C34, &v.b);
            optional(C34, &v.c);
            prove(C34, at_end());
        }
        Err(_) => prove(C34, refused(None) || (ghas::<109>() && !number_is(10) && !number_is(11) && !number_is(13)) || (number_is(10) && has(1)) || (number_is(11) && has(2)) || (number_is(13) && has(3)) || ghas::<141>() || (at_end() && !(has(1) && has(2)))),
    }
}
pub fn map_tag_encode(x: &Maptag, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 6, shortest(258));
    put(&mut out, 5, shortest(1 + x.b.is_some() as u64));
    put(&mut out, 0, shortest(0)); out.extend_from_slice(op_bytes(&x.a));
    if let Some(v) = &x.b { put(&mut out, 0, shortest(1)); out.extend_from_slice(op_bytes(v)); }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C34, &w.finalize(), &out);
}
pub fn map_tag_decode(d: &[u8]) {
    let mut r = start(d, MAPPED, 0);
    gset::<[u64; 6], 135>([0, 0, 1, 0, 0, 0]);
    match r.decode::<Maptag>() {
        Ok(v) => {
            clean(C34, &r, Some(258));
            field(C34, &v.a);
            optional(C34, &v.b);
            prove(C34, at_end());
        }
        Err(_) => prove(C34, refused(Some(258)) || (ghas::<109>() && !number_is(0) && !number_is(1)) || (number_is(0) && has(1)) || (number_is(1) && has(2)) || ghas::<141>() || (at_end() && !(has(1)))),
    }
}
pub fn map_tag_skip_encode(x: &Maptagskip, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    put(&mut out, 6, shortest(1));
    put(&mut out, 5, shortest(1 + x.a.is_some() as u64 + x.c.is_some() as u64));
    if let Some(v) = &x.a { put(&mut out, 0, shortest(5)); out.extend_from_slice(op_bytes(v)); }
    put(&mut out, 0, shortest(7)); out.extend_from_slice(op_bytes(&x.b));
    if let Some(v) = &x.c { put(&mut out, 0, shortest(9)); out.extend_from_slice(op_bytes(v)); }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C34, &w.finalize(), &out);
}
pub fn map_tag_skip_decode(d: &[u8]) {
    let mut r = start(d, MAPPED, 0);
    gset::<[u64; 6], 135>([0, 5, 7, 9, 0, 0]);
    match r.decode::<Maptagskip>() {
        Ok(v) => {
            clean(C34, &r, Some(1));
            optional(C34, &v.a);
            field(C34, &v.b);
            optional(C34, &v.c);
            prove(C34, at_end());
        }
        Err(_) => prove(C34, refused(Some(1)) || (ghas::<109>() && !number_is(5) && !number_is(7) && !number_is(9)) || (number_is(5) && has(1)) || (number_is(7) && has(2)) || (number_is(9) && has(3)) || ghas::<141>() || (at_end() && !(has(2)))),
    }
}
pub fn variant_one_encode(x: &Variantone, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    match x {
        Variantone::V0 => {
            put(&mut out, 4, shortest(1));
            put(&mut out, 0, shortest(0));
        }
    }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C35, &w.finalize(), &out);
}
pub fn variant_one_decode(d: &[u8]) {
    let mut r = start(d, ARR, 1);
    match r.decode::<Variantone>() {
        Ok(v) => {
            clean(C35, &r, None);
            match &v {
                Variantone::V0 => {
                    prove(C35, number_is(0));
                    prove(C35, items() == 1);
                }
            }
        }
        Err(_) => prove(C35, refused(None) || (ghas::<101>() && items() == 0) || (ghas::<109>() && !number_is(0)) || (number_is(0) && other_length(1))),
    }
}
pub fn variant_all_encode(x: &Variantall, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    match x {
        Variantall::V0 => {
            put(&mut out, 4, shortest(1));
            put(&mut out, 0, shortest(0));
        }
        Variantall::V1(a) => {
            put(&mut out, 4, shortest(2));
            put(&mut out, 0, shortest(1));
            out.extend_from_slice(op_bytes(a));
        }
        Variantall::V2 { a, b } => {
            put(&mut out, 4, shortest(3));
            put(&mut out, 0, shortest(2));
            out.extend_from_slice(op_bytes(a));
            out.extend_from_slice(op_bytes(b));
        }
        Variantall::V3(a, b) => {
            put(&mut out, 4, shortest(3));
            put(&mut out, 0, shortest(3));
            out.extend_from_slice(op_bytes(a));
            out.extend_from_slice(op_bytes(b));
        }
    }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C35, &w.finalize(), &out);
}
pub fn variant_all_decode(d: &[u8]) {
    let mut r = start(d, ARR, 1);
    match r.decode::<Variantall>() {
        Ok(v) => {
            clean(C35, &r, None);
            match &v {
                Variantall::V0 => {
                    prove(C35, number_is(0));
                    prove(C35, items() == 1);
                }
                Variantall::V1(a) => {
                    prove(C35, number_is(1));
                    prove(C35, items() == 2);
                    field(C35, a);
                }
                Variantall::V2 { a, b } => {
                    prove(C35, number_is(2));
                    prove(C35, items() == 3);
                    field(C35, a);
                    field(C35, b);
                }
                Variantall::V3(a, b) => {
                    prove(C35, number_is(3));
                    prove(C35, items() == 3);
                    field(C35, a);
                    field(C35, b);
                }
            }
        }
        Err(_) => prove(C35, refused(None) || (ghas::<101>() && items() == 0) || (ghas::<109>() && !number_is(0) && !number_is(1) && !number_is(2) && !number_is(3)) || (number_is(0) && other_length(1)) || (number_is(1) && other_length(2)) || (number_is(2) && other_length(3)) || (number_is(3) && other_length(3))),
    }
}
pub fn variant_default_encode(x: &Variantdefault, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    match x {
        Variantdefault::V0(a, b, c) => {
            put(&mut out, 4, shortest(4));
            put(&mut out, 0, shortest(0));
            out.extend_from_slice(op_bytes(a));
            out.extend_from_slice(op_bytes(b));
            out.extend_from_slice(op_bytes(c));
        }
        Variantdefault::V1 { a } => {
            put(&mut out, 4, shortest(2));
            put(&mut out, 0, shortest(1));
            out.extend_from_slice(op_bytes(a));
        }
    }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C35, &w.finalize(), &out);
}
pub fn variant_default_decode(d: &[u8]) {
    let mut r = start(d, ARR, 1);
    match r.decode::<Variantdefault>() {
        Ok(v) => {
            clean(C35, &r, None);
            match &v {
                Variantdefault::V0(a, b, c) => {
                    prove(C35, number_is(0));
                    prove(C35, items() == 4);
                    field(C35, a);
                    field(C35, b);
                    field(C35, c);
                }
                Variantdefault::V1 { a } => {
                    prove(C35, number_is(1));
                    prove(C35, items() == 2);
                    field(C35, a);
                }
            }
        }
        Err(_) => prove(C35, refused(None) || (ghas::<101>() && items() == 0) || (ghas::<109>() && !number_is(0) && !number_is(1)) || (number_is(0) && other_length(4)) || (number_is(1) && other_length(2))),
    }
}
pub fn variant_start_encode(x: &Variantstart, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    match x {
        Variantstart::V0(a) => {
            put(&mut out, 4, shortest(2));
            put(&mut out, 0, shortest(3));
            out.extend_from_slice(op_bytes(a));
        }
        Variantstart::V1 => {
            put(&mut out, 4, shortest(1));
            put(&mut out, 0, shortest(4));
        }
    }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C35, &w.finalize(), &out);
}
pub fn variant_start_decode(d: &[u8]) {
    let mut r = start(d, ARR, 1);
    match r.decode::<Variantstart>() {
        Ok(v) => {
            clean(C35, &r, None);
            match &v {
                Variantstart::V0(a) => {
                    prove(C35, number_is(3));
                    prove(C35, items() == 2);
                    field(C35, a);
                }
                Variantstart::V1 => {
                    prove(C35, number_is(4));
                    prove(C35, items() == 1);
                }
            }
        }
        Err(_) => prove(C35, refused(None) || (ghas::<101>() && items() == 0) || (ghas::<109>() && !number_is(3) && !number_is(4)) || (number_is(3) && other_length(2)) || (number_is(4) && other_length(1))),
    }
}
pub fn variant_start_big_encode(x: &Variantstartbig, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    match x {
        Variantstartbig::V0(a) => {
            put(&mut out, 4, shortest(2));
            put(&mut out, 0, shortest(1099511627776));
            out.extend_from_slice(op_bytes(a));
        }
        Variantstartbig::V1 => {
            put(&mut out, 4, shortest(1));
            put(&mut out, 0, shortest(1099511627777));
        }
    }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C35, &w.finalize(), &out);
}
pub fn variant_start_big_decode(d: &[u8]) {
    let mut r = start(d, ARR, 1);
    match r.decode::<Variantstartbig>() {
        Ok(v) => {
            clean(C35, &r, None);
            match &v {
                Variantstartbig::V0(a) => {
                    prove(C35, number_is(1099511627776));
                    prove(C35, items() == 2);
                    field(C35, a);
                }
                Variantstartbig::V1 => {
                    prove(C35, number_is(1099511627777));
                    prove(C35, items() == 1);
                }
            }
        }
        Err(_) => prove(C35, refused(None) || (ghas::<101>() && items() == 0) || (ghas::<109>() && !number_is(1099511627776) && !number_is(1099511627777)) || (number_is(1099511627776) && other_length(2)) || (number_is(1099511627777) && other_length(1))),
    }
}
pub fn variant_skip_encode(x: &Variantskip, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    match x {
        Variantskip::V0 => {
            put(&mut out, 4, shortest(1));
            put(&mut out, 0, shortest(3));
        }
        Variantskip::V1(a) => {
            put(&mut out, 4, shortest(2));
            put(&mut out, 0, shortest(5));
            out.extend_from_slice(op_bytes(a));
        }
        Variantskip::V2 { a } => {
            put(&mut out, 4, shortest(2));
            put(&mut out, 0, shortest(6));
            out.extend_from_slice(op_bytes(a));
        }
    }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C35, &w.finalize(), &out);
}
pub fn variant_skip_decode(d: &[u8]) {
    let mut r = start(d, ARR, 1);
    match r.decode::<Variantskip>() {
        Ok(v) => {
            clean(C35, &r, None);
            match &v {
                Variantskip::V0 => {
                    prove(C35, number_is(3));
                    prove(C35, items() == 1);
                }
                Variantskip::V1(a) => {
                    prove(C35, number_is(5));
                    prove(C35, items() == 2);
                    field(C35, a);
                }
                Variantskip::V2 { a } => {
                    prove(C35, number_is(6));
                    prove(C35, items() == 2);
                    field(C35, a);
                }
            }
        }
        Err(_) => prove(C35, refused(None) || (ghas::<101>() && items() == 0) || (ghas::<109>() && !number_is(3) && !number_is(5) && !number_is(6)) || (number_is(3) && other_length(1)) || (number_is(5) && other_length(2)) || (number_is(6) && other_length(2))),
    }
}
pub fn variant_skip_first_encode(x: &Variantskipfirst, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    match x {
        Variantskipfirst::V0 => {
            put(&mut out, 4, shortest(1));
            put(&mut out, 0, shortest(2));
        }
        Variantskipfirst::V1(a, b) => {
            put(&mut out, 4, shortest(3));
            put(&mut out, 0, shortest(3));
            out.extend_from_slice(op_bytes(a));
            out.extend_from_slice(op_bytes(b));
        }
    }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C35, &w.finalize(), &out);
}
pub fn variant_skip_first_decode(d: &[u8]) {
    let mut r = start(d, ARR, 1);
    match r.decode::<Variantskipfirst>() {
        Ok(v) => {
            clean(C35, &r, None);
            match &v {
                Variantskipfirst::V0 => {
                    prove(C35, number_is(2));
                    prove(C35, items() == 1);
                }
                Variantskipfirst::V1(a, b) => {
                    prove(C35, number_is(3));
                    prove(C35, items() == 3);
                    field(C35, a);
                    field(C35, b);
                }
            }
        }
        Err(_) => prove(C35, refused(None) || (ghas::<101>() && items() == 0) || (ghas::<109>() && !number_is(2) && !number_is(3)) || (number_is(2) && other_length(1)) || (number_is(3) && other_length(3))),
    }
}
pub fn variant_skip_row_encode(x: &Variantskiprow, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    match x {
        Variantskiprow::V0(a) => {
            put(&mut out, 4, shortest(2));
            put(&mut out, 0, shortest(22));
            out.extend_from_slice(op_bytes(a));
        }
        Variantskiprow::V1 => {
            put(&mut out, 4, shortest(1));
            put(&mut out, 0, shortest(25));
        }
        Variantskiprow::V2 => {
            put(&mut out, 4, shortest(1));
            put(&mut out, 0, shortest(26));
        }
    }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C35, &w.finalize(), &out);
}
pub fn variant_skip_row_decode(d: &[u8]) {
    let mut r = start(d, ARR, 1);
    match r.decode::<Variantskiprow>() {
        Ok(v) => {
            clean(C35, &r, None);
            match &v {
                Variantskiprow::V0(a) => {
                    prove(C35, number_is(22));
                    prove(C35, items() == 2);
                    field(C35, a);
                }
                Variantskiprow::V1 => {
                    prove(C35, number_is(25));
                    prove(C35, items() == 1);
                }
                Variantskiprow::V2 => {
                    prove(C35, number_is(26));
                    prove(C35, items() == 1);
                }
            }
        }
        Err(_) => prove(C35, refused(None) || (ghas::<101>() && items() == 0) || (ghas::<109>() && !number_is(22) && !number_is(25) && !number_is(26)) || (number_is(22) && other_length(2)) || (number_is(25) && other_length(1)) || (number_is(26) && other_length(1))),
    }
}
pub fn variant_skip_below_encode(x: &Variantskipbelow, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    match x {
        Variantskipbelow::V0(a) => {
            put(&mut out, 4, shortest(2));
            put(&mut out, 0, shortest(7));
            out.extend_from_slice(op_bytes(a));
        }
        Variantskipbelow::V1 => {
            put(&mut out, 4, shortest(1));
            put(&mut out, 0, shortest(8));
        }
    }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C35, &w.finalize(), &out);
}
pub fn variant_skip_below_decode(d: &[u8]) {
    let mut r = start(d, ARR, 1);
    match r.decode::<Variantskipbelow>() {
        Ok(v) => {
            clean(C35, &r, None);
            match &v {
                Variantskipbelow::V0(a) => {
                    prove(C35, number_is(7));
                    prove(C35, items() == 2);
                    field(C35, a);
                }
                Variantskipbelow::V1 => {
                    prove(C35, number_is(8));
                    prove(C35, items() == 1);
                }
            }
        }
        Err(_) => prove(C35, refused(None) || (ghas::<101>() && items() == 0) || (ghas::<109>() && !number_is(7) && !number_is(8)) || (number_is(7) && other_length(2)) || (number_is(8) && other_length(1))),
    }
}
pub fn variant_vec_encode(x: &Variantvec, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    match x {
        Variantvec::V0 => {
            put(&mut out, 4, shortest(1));
            put(&mut out, 0, shortest(0));
        }
        Variantvec::V1(a) => {
            put(&mut out, 4, shortest(2));
            put(&mut out, 0, shortest(1));
            put(&mut out, 4, shortest(a.len() as u64));
            for v in a.iter() { out.extend_from_slice(op_bytes(v)); }
        }
    }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C35, &w.finalize(), &out);
}
pub fn variant_vec_decode(d: &[u8]) {
    let mut r = start(d, ARR, 1);
    gset::<usize, 137>(1);
    match r.decode::<Variantvec>() {
        Ok(v) => {
            clean(C35, &r, None);
            match &v {
                Variantvec::V0 => {
                    prove(C35, number_is(0));
                    prove(C35, items() == 1);
                }
                Variantvec::V1(a) => {
                    prove(C35, number_is(1));
                    prove(C35, items() == 2);
                    vector(C35, a);
                }
            }
        }
        Err(_) => prove(C35, refused(None) || (ghas::<101>() && items() == 0) || (ghas::<109>() && !number_is(0) && !number_is(1)) || (number_is(0) && other_length(1)) || (number_is(1) && other_length(2))),
    }
}
pub fn variant_vec_last_encode(x: &Variantveclast, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    match x {
        Variantveclast::V0(a, b) => {
            put(&mut out, 4, shortest(3));
            put(&mut out, 0, shortest(1));
            out.extend_from_slice(op_bytes(a));
            put(&mut out, 4, shortest(b.len() as u64));
            for v in b.iter() { out.extend_from_slice(op_bytes(v)); }
        }
        Variantveclast::V1 { a } => {
            put(&mut out, 4, shortest(2));
            put(&mut out, 0, shortest(2));
            out.extend_from_slice(op_bytes(a));
        }
    }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C35, &w.finalize(), &out);
}
pub fn variant_vec_last_decode(d: &[u8]) {
    let mut r = start(d, ARR, 1);
    gset::<usize, 137>(2);
    match r.decode::<Variantveclast>() {
        Ok(v) => {
            clean(C35, &r, None);
            match &v {
                Variantveclast::V0(a, b) => {
                    prove(C35, number_is(1));
                    prove(C35, items() == 3);
                    field(C35, a);
                    vector(C35, b);
                }
                Variantveclast::V1 { a } => {
                    prove(C35, number_is(2));
                    prove(C35, items() == 2);
                    field(C35, a);
                }
            }
        }
        Err(_) => prove(C35, refused(None) || (ghas::<101>() && items() == 0) || (ghas::<109>() && !number_is(1) && !number_is(2)) || (number_is(1) && other_length(3)) || (number_is(2) && other_length(2))),
    }
}
pub fn int_one_encode(x: &Intone, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    let n = match x {
        Intone::V0 => 0,
    };
    put(&mut out, 0, shortest(n));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C36, &w.finalize(), &out);
}
pub fn int_one_decode(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    match r.decode::<Intone>() {
        Ok(v) => {
            let n: u64 = match v { Intone::V0 => 0 };
            match header_at(d, i) {
                Ok(h) => {
                    prove(C36, h.kind == POSITIVE && h.val == n);
                    prove(C36, r.consumed_bytes() == i + h.adv);
                }
                Err(_) => fail(C36, "no number is there"),
            }
        }
        Err(_) => match header_at(d, i) {
            Ok(h) => prove(C36, h.kind != POSITIVE || (h.val != 0)),
            Err(_) => (),
        },
    }
}
pub fn int_three_encode(x: &Intthree, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    let n = match x {
        Intthree::V0 => 0,
        Intthree::V1 => 1,
        Intthree::V2 => 2,
    };
    put(&mut out, 0, shortest(n));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C36, &w.finalize(), &out);
}
pub fn int_three_decode(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    match r.decode::<Intthree>() {
        Ok(v) => {
            let n: u64 = match v { Intthree::V0 => 0, Intthree::V1 => 1, Intthree::V2 => 2 };
            match header_at(d, i) {
                Ok(h) => {
                    prove(C36, h.kind == POSITIVE && h.val == n);
                    prove(C36, r.consumed_bytes() == i + h.adv);
                }
                Err(_) => fail(C36, "no number is there"),
            }
        }
        Err(_) => match header_at(d, i) {
            Ok(h) => prove(C36, h.kind != POSITIVE || (h.val != 0 && h.val != 1 && h.val != 2)),
            Err(_) => (),
        },
    }
}
pub fn int_start_encode(x: &Intstart, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    let n = match x {
        Intstart::V0 => 254,
        Intstart::V1 => 255,
        Intstart::V2 => 256,
    };
    put(&mut out, 0, shortest(n));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C36, &w.finalize(), &out);
}
pub fn int_start_decode(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    match r.decode::<Intstart>() {
        Ok(v) => {
            let n: u64 = match v { Intstart::V0 => 254, Intstart::V1 => 255, Intstart::V2 => 256 };
            match header_at(d, i) {
                Ok(h) => {
                    prove(C36, h.kind == POSITIVE && h.val == n);
                    prove(C36, r.consumed_bytes() == i + h.adv);
                }
                Err(_) => fail(C36, "no number is there"),
            }
        }
        Err(_) => match header_at(d, i) {
            Ok(h) => prove(C36, h.kind != POSITIVE || (h.val != 254 && h.val != 255 && h.val != 256)),
            Err(_) => (),
        },
    }
}
pub fn int_start_big_encode(x: &Intstartbig, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    let n = match x {
        Intstartbig::V0 => 1099511627776,
        Intstartbig::V1 => 1099511627777,
    };
    put(&mut out, 0, shortest(n));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C36, &w.finalize(), &out);
}
pub fn int_start_big_decode(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    match r.decode::<Intstartbig>() {
        Ok(v) => {
            let n: u64 = match v { Intstartbig::V0 => 1099511627776, Intstartbig::V1 => 1099511627777 };
            match header_at(d, i) {
                Ok(h) => {
                    prove(C36, h.kind == POSITIVE && h.val == n);
                    prove(C36, r.consumed_bytes() == i + h.adv);
                }
                Err(_) => fail(C36, "no number is there"),
            }
        }
        Err(_) => match header_at(d, i) {
            Ok(h) => prove(C36, h.kind != POSITIVE || (h.val != 1099511627776 && h.val != 1099511627777)),
            Err(_) => (),
        },
    }
}
pub fn int_skip_encode(x: &Intskip, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    let n = match x {
        Intskip::V0 => 1,
        Intskip::V1 => 3,
        Intskip::V2 => 5,
        Intskip::V3 => 6,
    };
    put(&mut out, 0, shortest(n));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C36, &w.finalize(), &out);
}
pub fn int_skip_decode(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    match r.decode::<Intskip>() {
        Ok(v) => {
            let n: u64 = match v { Intskip::V0 => 1, Intskip::V1 => 3, Intskip::V2 => 5, Intskip::V3 => 6 };
            match header_at(d, i) {
                Ok(h) => {
                    prove(C36, h.kind == POSITIVE && h.val == n);
                    prove(C36, r.consumed_bytes() == i + h.adv);
                }
                Err(_) => fail(C36, "no number is there"),
            }
        }
        Err(_) => match header_at(d, i) {
            Ok(h) => prove(C36, h.kind != POSITIVE || (h.val != 1 && h.val != 3 && h.val != 5 && h.val != 6)),
            Err(_) => (),
        },
    }
}
pub fn int_skip_first_encode(x: &Intskipfirst, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    let n = match x {
        Intskipfirst::V0 => 1,
        Intskipfirst::V1 => 2,
    };
    put(&mut out, 0, shortest(n));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C36, &w.finalize(), &out);
}
pub fn int_skip_first_decode(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    match r.decode::<Intskipfirst>() {
        Ok(v) => {
            let n: u64 = match v { Intskipfirst::V0 => 1, Intskipfirst::V1 => 2 };
            match header_at(d, i) {
                Ok(h) => {
                    prove(C36, h.kind == POSITIVE && h.val == n);
                    prove(C36, r.consumed_bytes() == i + h.adv);
                }
                Err(_) => fail(C36, "no number is there"),
            }
        }
        Err(_) => match header_at(d, i) {
            Ok(h) => prove(C36, h.kind != POSITIVE || (h.val != 1 && h.val != 2)),
            Err(_) => (),
        },
    }
}
pub fn int_skip_row_encode(x: &Intskiprow, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    let n = match x {
        Intskiprow::V0 => 21,
        Intskiprow::V1 => 25,
        Intskiprow::V2 => 26,
    };
    put(&mut out, 0, shortest(n));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C36, &w.finalize(), &out);
}
pub fn int_skip_row_decode(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    match r.decode::<Intskiprow>() {
        Ok(v) => {
            let n: u64 = match v { Intskiprow::V0 => 21, Intskiprow::V1 => 25, Intskiprow::V2 => 26 };
            match header_at(d, i) {
                Ok(h) => {
                    prove(C36, h.kind == POSITIVE && h.val == n);
                    prove(C36, r.consumed_bytes() == i + h.adv);
                }
                Err(_) => fail(C36, "no number is there"),
            }
        }
        Err(_) => match header_at(d, i) {
            Ok(h) => prove(C36, h.kind != POSITIVE || (h.val != 21 && h.val != 25 && h.val != 26)),
            Err(_) => (),
        },
    }
}
pub fn int_many_encode(x: &Intmany, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    let n = match x {
        Intmany::V0 => 0,
        Intmany::V1 => 1,
        Intmany::V2 => 2,
        Intmany::V3 => 3,
        Intmany::V4 => 4,
        Intmany::V5 => 5,
        Intmany::V6 => 6,
        Intmany::V7 => 9,
        Intmany::V8 => 10,
        Intmany::V9 => 11,
        Intmany::V10 => 12,
        Intmany::V11 => 13,
        Intmany::V12 => 14,
        Intmany::V13 => 15,
        Intmany::V14 => 16,
        Intmany::V15 => 17,
        Intmany::V16 => 18,
        Intmany::V17 => 19,
        Intmany::V18 => 20,
        Intmany::V19 => 21,
        Intmany::V20 => 22,
        Intmany::V21 => 24,
        Intmany::V22 => 25,
        Intmany::V23 => 26,
        Intmany::V24 => 27,
        Intmany::V25 => 28,
        Intmany::V26 => 29,
        Intmany::V27 => 30,
        Intmany::V28 => 31,
        Intmany::V29 => 32,
    };
    put(&mut out, 0, shortest(n));
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C36, &w.finalize(), &out);
}
pub fn int_many_decode(d: &[u8]) {
    let mut r = some_reader(d);
    let i = r.consumed_bytes();
    match r.decode::<Intmany>() {
        Ok(v) => {
            let n: u64 = match v { Intmany::V0 => 0, Intmany::V1 => 1, Intmany::V2 => 2, Intmany::V3 => 3, Intmany::V4 => 4, Intmany::V5 => 5, Intmany::V6 => 6, Intmany::V7 => 9, Intmany::V8 => 10, Intmany::V9 => 11, Intmany::V10 => 12, Intmany::V11 => 13, Intmany::V12 => 14, Intmany::V13 => 15, Intmany::V14 => 16, Intmany::V15 => 17, Intmany::V16 => 18, Intmany::V17 => 19, Intmany::V18 => 20, Intmany::V19 => 21, Intmany::V20 => 22, Intmany::V21 => 24, Intmany::V22 => 25, Intmany::V23 => 26, Intmany::V24 => 27, Intmany::V25 => 28, Intmany::V26 => 29, Intmany::V27 => 30, Intmany::V28 => 31, Intmany::V29 => 32 };
            match header_at(d, i) {
                Ok(h) => {
                    prove(C36, h.kind == POSITIVE && h.val == n);
                    prove(C36, r.consumed_bytes() == i + h.adv);
                }
                Err(_) => fail(C36, "no number is there"),
            }
        }
        Err(_) => match header_at(d, i) {
            Ok(h) => prove(C36, h.kind != POSITIVE || (h.val != 0 && h.val != 1 && h.val != 2 && h.val != 3 && h.val != 4 && h.val != 5 && h.val != 6 && h.val != 9 && h.val != 10 && h.val != 11 && h.val != 12 && h.val != 13 && h.val != 14 && h.val != 15 && h.val != 16 && h.val != 17 && h.val != 18 && h.val != 19 && h.val != 20 && h.val != 21 && h.val != 22 && h.val != 24 && h.val != 25 && h.val != 26 && h.val != 27 && h.val != 28 && h.val != 29 && h.val != 30 && h.val != 31 && h.val != 32)),
            Err(_) => (),
        },
    }
}
pub fn type_all_encode(x: &Typeall, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    match x {
        Typeall::Positive(a) => out.extend_from_slice(op_bytes(a)),
        Typeall::Negative(a) => out.extend_from_slice(op_bytes(a)),
        Typeall::Bytes(a) => out.extend_from_slice(op_bytes(a)),
        Typeall::Text(a) => out.extend_from_slice(op_bytes(a)),
        Typeall::Array(a) => out.extend_from_slice(op_bytes(a)),
        Typeall::Map(a) => out.extend_from_slice(op_bytes(a)),
        Typeall::Tag(a) => out.extend_from_slice(op_bytes(a)),
        Typeall::Null => out.push(0xf6),
    }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C37, &w.finalize(), &out);
}
pub fn type_all_decode(d: &[u8]) {
    let mut r = start(d, TYPED, 0);
    let i = r.consumed_bytes();
    match r.decode::<Typeall>() {
        Ok(v) => {
            prove(C37, !ghas::<102>());
            prove(C37, i < d.len());
            match &v {
                Typeall::Positive(a) => {
                    prove(C37, kind_of(d[i]).ok() == Some(0));
                    prove(C37, r.consumed_bytes() == gget::<usize, 136>());
                    same(C37, a, &op_of::<0>(gget::<u64, 142>()));
                }
                Typeall::Negative(a) => {
                    prove(C37, kind_of(d[i]).ok() == Some(1));
                    prove(C37, r.consumed_bytes() == gget::<usize, 136>());
                    same(C37, a, &op_of::<1>(gget::<u64, 142>()));
                }
                Typeall::Bytes(a) => {
                    prove(C37, kind_of(d[i]).ok() == Some(2));
                    prove(C37, r.consumed_bytes() == gget::<usize, 136>());
                    same(C37, a, &op_of::<2>(gget::<u64, 142>()));
                }
                Typeall::Text(a) => {
                    prove(C37, kind_of(d[i]).ok() == Some(3));
                    prove(C37, r.consumed_bytes() == gget::<usize, 136>());
                    same(C37, a, &op_of::<3>(gget::<u64, 142>()));
                }
                Typeall::Array(a) => {
                    prove(C37, kind_of(d[i]).ok() == Some(4));
                    prove(C37, r.consumed_bytes() == gget::<usize, 136>());
                    same(C37, a, &op_of::<4>(gget::<u64, 142>()));
                }
                Typeall::Map(a) => {
                    prove(C37, kind_of(d[i]).ok() == Some(5));
                    prove(C37, r.consumed_bytes() == gget::<usize, 136>());
                    same(C37, a, &op_of::<5>(gget::<u64, 142>()));
                }
                Typeall::Tag(a) => {
                    prove(C37, kind_of(d[i]).ok() == Some(6));
                    prove(C37, r.consumed_bytes() == gget::<usize, 136>());
                    same(C37, a, &op_of::<6>(gget::<u64, 142>()));
                }
                Typeall::Null => {
                    prove(C37, kind_of(d[i]).ok() == Some(NULL));
                    prove(C37, r.consumed_bytes() == i + 1);
                    prove(C37, !ghas::<136>());
                }
            }
        }
        Err(_) => {
            if !ghas::<102>() && i < d.len() {
                if let Ok(k) = kind_of(d[i]) {
                    prove(C37, k != 0 && k != 1 && k != 2 && k != 3 && k != 4 && k != 5 && k != 6 && k != 9);
                }
            }
        }
    }
}
pub fn type_null_encode(x: &Typenull, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    match x {
        Typenull::Null => out.push(0xf6),
        Typenull::Positive(a) => out.extend_from_slice(op_bytes(a)),
    }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C37, &w.finalize(), &out);
}
pub fn type_null_decode(d: &[u8]) {
    let mut r = start(d, TYPED, 0);
    let i = r.consumed_bytes();
    match r.decode::<Typenull>() {
        Ok(v) => {
            prove(C37, !ghas::<102>());
            prove(C37, i < d.len());
            match &v {
                Typenull::Null => {
                    prove(C37, kind_of(d[i]).ok() == Some(NULL));
                    prove(C37, r.consumed_bytes() == i + 1);
                    prove(C37, !ghas::<136>());
                }
                Typenull::Positive(a) => {
                    prove(C37, kind_of(d[i]).ok() == Some(0));
                    prove(C37, r.consumed_bytes() == gget::<usize, 136>());
                    same(C37, a, &op_of::<0>(gget::<u64, 142>()));
                }
            }
        }
        Err(_) => {
            if !ghas::<102>() && i < d.len() {
                if let Ok(k) = kind_of(d[i]) {
                    prove(C37, k != 9 && k != 0);
                }
            }
        }
    }
}
pub fn type_some_encode(x: &Typesome, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    match x {
        Typesome::Text(a) => out.extend_from_slice(op_bytes(a)),
        Typesome::Bytes { a } => out.extend_from_slice(op_bytes(a)),
    }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C37, &w.finalize(), &out);
}
pub fn type_some_decode(d: &[u8]) {
    let mut r = start(d, TYPED, 0);
    let i = r.consumed_bytes();
    match r.decode::<Typesome>() {
        Ok(v) => {
            prove(C37, !ghas::<102>());
            prove(C37, i < d.len());
            match &v {
                Typesome::Text(a) => {
                    prove(C37, kind_of(d[i]).ok() == Some(3));
                    prove(C37, r.consumed_bytes() == gget::<usize, 136>());
                    same(C37, a, &op_of::<3>(gget::<u64, 142>()));
                }
                Typesome::Bytes { a } => {
                    prove(C37, kind_of(d[i]).ok() == Some(2));
                    prove(C37, r.consumed_bytes() == gget::<usize, 136>());
                    same(C37, a, &op_of::<2>(gget::<u64, 142>()));
                }
            }
        }
        Err(_) => {
            if !ghas::<102>() && i < d.len() {
                if let Ok(k) = kind_of(d[i]) {
                    prove(C37, k != 3 && k != 2);
                }
            }
        }
    }
}
pub fn type_structure_encode(x: &Typestructure, prefix: Vec<u8>) {
    let mut out = prefix.clone();
    match x {
        Typestructure::Tag(a) => out.extend_from_slice(op_bytes(a)),
        Typestructure::Map { a } => out.extend_from_slice(op_bytes(a)),
        Typestructure::Array(a) => out.extend_from_slice(op_bytes(a)),
        Typestructure::Negative(a) => out.extend_from_slice(op_bytes(a)),
    }
    let mut w = Writer::new_from_vec(prefix);
    x.encode(&mut w);
    same(C37, &w.finalize(), &out);
}
pub fn type_structure_decode(d: &[u8]) {
    let mut r = start(d, TYPED, 0);
    let i = r.consumed_bytes();
    match r.decode::<Typestructure>() {
        Ok(v) => {
            prove(C37, !ghas::<102>());
            prove(C37, i < d.len());
            match &v {
                Typestructure::Tag(a) => {
                    prove(C37, kind_of(d[i]).ok() == Some(6));
                    prove(C37, r.consumed_bytes() == gget::<usize, 136>());
                    same(C37, a, &op_of::<6>(gget::<u64, 142>()));
                }
                Typestructure::Map { a } => {
                    prove(C37, kind_of(d[i]).ok() == Some(5));
                    prove(C37, r.consumed_bytes() == gget::<usize, 136>());
                    same(C37, a, &op_of::<5>(gget::<u64, 142>()));
                }
                Typestructure::Array(a) => {
                    prove(C37, kind_of(d[i]).ok() == Some(4));
                    prove(C37, r.consumed_bytes() == gget::<usize, 136>());
                    same(C37, a, &op_of::<4>(gget::<u64, 142>()));
                }
                Typestructure::Negative(a) => {
                    prove(C37, kind_of(d[i]).ok() == Some(1));
                    prove(C37, r.consumed_bytes() == gget::<usize, 136>());
                    same(C37, a, &op_of::<1>(gget::<u64, 142>()));
                }
            }
        }
        Err(_) => {
            if !ghas::<102>() && i < d.len() {
                if let Ok(k) = kind_of(d[i]) {
                    prove(C37, k != 6 && k != 5 && k != 4 && k != 1);
                }
            }
        }
    }
}
/// (nothing is imported but the macro and the types of the fields)
pub mod def {
    use crate::ops::Op;
    use cbored::CborRepr;
    #[derive(CborRepr)]
    #[cborrepr(structure = "array")]
    pub struct Arrayone {
        pub a: Op<1>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "array")]
    pub struct Arraytwo {
        pub a: Op<1>,
        pub b: Op<2>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "array")]
    pub struct Arraythree {
        pub a: Op<1>,
        pub b: Op<2>,
        pub c: Op<3>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "array")]
    pub struct Arrayfive {
        pub a: Op<1>,
        pub b: Op<2>,
        pub c: Op<3>,
        pub d: Op<4>,
        pub e: Op<5>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "array", tag = 0)]
    pub struct Arraytagone {
        pub a: Op<1>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "array", tag = 55)]
    pub struct Arraytag {
        pub a: Op<1>,
        pub b: Op<2>,
        pub c: Op<3>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "array", tag = 1099511627776)]
    pub struct Arraytagbig {
        pub a: Op<1>,
        pub b: Op<2>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "array")]
    pub struct Arraytuple(pub Op<1>, pub Op<2>, pub Op<3>);
    #[derive(CborRepr)]
    #[cborrepr(structure = "array")]
    pub struct Arraytupleone(pub Op<1>);
    #[derive(CborRepr)]
    #[cborrepr(structure = "array", tag = 300)]
    pub struct Arraytupletag(pub Op<1>, pub Op<2>);
    #[derive(CborRepr)]
    #[cborrepr(structure = "array")]
    pub struct Arrayvec {
        pub a: Op<1>,
        #[cborrepr(variant = "vec")]
        pub b: Vec<Op<9>>,
        pub c: Op<3>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "array_lastopt")]
    pub struct Lastoptone {
        pub a: Option<Op<1>>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "array_lastopt")]
    pub struct Lastopttwo {
        pub a: Op<1>,
        pub b: Option<Op<2>>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "array_lastopt")]
    pub struct Lastoptfour {
        pub a: Op<1>,
        pub b: Op<2>,
        pub c: Op<3>,
        pub d: Option<Op<4>>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "array_lastopt", tag = 24)]
    pub struct Lastopttag {
        pub a: Op<1>,
        pub b: Op<2>,
        pub c: Option<Op<3>>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "flat")]
    pub struct Flatone {
        pub a: Op<1>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "flat")]
    pub struct Flatthree {
        pub a: Op<1>,
        pub b: Op<2>,
        pub c: Op<3>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "flat")]
    pub struct Flatdefault {
        pub a: Op<1>,
        pub b: Op<2>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "flat")]
    pub struct Flattupleone(pub Op<1>);
    #[derive(CborRepr)]
    #[cborrepr(structure = "flat")]
    pub struct Flattuple(pub Op<1>, pub Op<2>, pub Op<3>, pub Op<4>);
    #[derive(CborRepr)]
    #[cborrepr(structure = "flat", tag = 70000)]
    pub struct Flattag {
        pub a: Op<1>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "flat", tag = 5)]
    pub struct Flattupletag(pub Op<1>);
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint")]
    pub struct Mapone {
        #[cborrepr(mandatory)]
        pub a: Op<1>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint")]
    pub struct Maptwo {
        #[cborrepr(mandatory)]
        pub a: Op<1>,
        #[cborrepr(mandatory)]
        pub b: Op<2>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint")]
    pub struct Mapopt {
        pub a: Option<Op<1>>,
        pub b: Option<Op<2>>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint")]
    pub struct Mapmixed {
        #[cborrepr(mandatory)]
        pub a: Op<1>,
        #[cborrepr(mandatory)]
        pub b: Op<2>,
        pub c: Option<Op<3>>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint", map_starts_at = 23)]
    pub struct Mapmixedfirst {
        pub a: Option<Op<1>>,
        pub b: Option<Op<2>>,
        #[cborrepr(mandatory)]
        pub c: Op<3>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint", map_starts_at = 2)]
    pub struct Mapstart {
        #[cborrepr(mandatory)]
        pub a: Op<1>,
        pub b: Option<Op<2>>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint", map_starts_at = 1099511627776)]
    pub struct Mapstartbig {
        #[cborrepr(mandatory)]
        pub a: Op<1>,
        #[cborrepr(mandatory)]
        pub b: Op<2>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint", skipkey = 1)]
    pub struct Mapskip {
        #[cborrepr(mandatory)]
        pub a: Op<1>,
        pub b: Option<Op<2>>,
        #[cborrepr(mandatory)]
        pub c: Op<3>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint", skipkey = 0, skipkey = 1)]
    pub struct Mapskipfirst {
        #[cborrepr(mandatory)]
        pub a: Op<1>,
        #[cborrepr(mandatory)]
        pub b: Op<2>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint", map_starts_at = 2, skipkey = 3, skipkey = 5)]
    pub struct Mapskipstart {
        #[cborrepr(mandatory)]
        pub a: Op<1>,
        pub b: Option<Op<2>>,
        pub c: Option<Op<3>>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint", map_starts_at = 1, skipkey = 3, skipkey = 2, skipkey = 4)]
    pub struct Mapskiprow {
        pub a: Option<Op<1>>,
        #[cborrepr(mandatory)]
        pub b: Op<2>,
        #[cborrepr(mandatory)]
        pub c: Op<3>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint", map_starts_at = 4, skipkey = 0, skipkey = 2, skipkey = 9)]
    pub struct Mapskipbelow {
        #[cborrepr(mandatory)]
        pub a: Op<1>,
        #[cborrepr(mandatory)]
        pub b: Op<2>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint", map_starts_at = 10, skipkey = 12)]
    pub struct Mapskiplast {
        #[cborrepr(mandatory)]
        pub a: Op<1>,
        #[cborrepr(mandatory)]
        pub b: Op<2>,
        pub c: Option<Op<3>>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint", tag = 258)]
    pub struct Maptag {
        #[cborrepr(mandatory)]
        pub a: Op<1>,
        pub b: Option<Op<2>>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint", tag = 1, map_starts_at = 5, skipkey = 6, skipkey = 8)]
    pub struct Maptagskip {
        pub a: Option<Op<1>>,
        #[cborrepr(mandatory)]
        pub b: Op<2>,
        pub c: Option<Op<3>>,
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "tagvariant")]
    pub enum Variantone {
        V0,
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "tagvariant")]
    pub enum Variantall {
        V0,
        V1(Op<1>),
        V2 { a: Op<1>, b: Op<2> },
        V3(Op<1>, Op<2>),
    }
    #[derive(CborRepr)]
    pub enum Variantdefault {
        V0(Op<1>, Op<2>, Op<3>),
        V1 { a: Op<1> },
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "tagvariant", variant_starts_at = 3)]
    pub enum Variantstart {
        V0(Op<1>),
        V1,
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "tagvariant", variant_starts_at = 1099511627776)]
    pub enum Variantstartbig {
        V0(Op<1>),
        V1,
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "tagvariant", variant_starts_at = 3, skipkey = 4)]
    pub enum Variantskip {
        V0,
        V1(Op<1>),
        V2 { a: Op<1> },
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "tagvariant", skipkey = 0, skipkey = 1)]
    pub enum Variantskipfirst {
        V0,
        V1(Op<1>, Op<2>),
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "tagvariant", variant_starts_at = 22, skipkey = 24, skipkey = 23)]
    pub enum Variantskiprow {
        V0(Op<1>),
        V1,
        V2,
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "tagvariant", variant_starts_at = 7, skipkey = 1, skipkey = 9)]
    pub enum Variantskipbelow {
        V0(Op<1>),
        V1,
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "tagvariant")]
    pub enum Variantvec {
        V0,
        V1(Vec<Op<9>>),
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "tagvariant", variant_starts_at = 1)]
    pub enum Variantveclast {
        V0(Op<1>, Vec<Op<9>>),
        V1 { a: Op<1> },
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "enumint")]
    pub enum Intone { V0 }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "enumint")]
    pub enum Intthree { V0, V1, V2 }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "enumint", variant_starts_at = 254)]
    pub enum Intstart { V0, V1, V2 }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "enumint", variant_starts_at = 1099511627776)]
    pub enum Intstartbig { V0, V1 }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "enumint", variant_starts_at = 1, skipkey = 2, skipkey = 4)]
    pub enum Intskip { V0, V1, V2, V3 }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "enumint", skipkey = 0)]
    pub enum Intskipfirst { V0, V1 }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "enumint", variant_starts_at = 21, skipkey = 24, skipkey = 23, skipkey = 22)]
    pub enum Intskiprow { V0, V1, V2 }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "enumint", skipkey = 7, skipkey = 8, skipkey = 23)]
    pub enum Intmany { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29 }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "enumtype")]
    pub enum Typeall {
        #[cborrepr(cbortype = "positive")]
        Positive(Op<0>),
        #[cborrepr(cbortype = "negative")]
        Negative(Op<1>),
        #[cborrepr(cbortype = "bytes")]
        Bytes(Op<2>),
        #[cborrepr(cbortype = "text")]
        Text(Op<3>),
        #[cborrepr(cbortype = "array")]
        Array(Op<4>),
        #[cborrepr(cbortype = "map")]
        Map(Op<5>),
        #[cborrepr(cbortype = "tag")]
        Tag(Op<6>),
        #[cborrepr(cbortype = "null")]
        Null,
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "enumtype")]
    pub enum Typenull {
        #[cborrepr(cbortype = "null")]
        Null,
        #[cborrepr(cbortype = "positive")]
        Positive(Op<0>),
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "enumtype")]
    pub enum Typesome {
        #[cborrepr(cbortype = "text")]
        Text(Op<3>),
        #[cborrepr(cbortype = "bytes")]
        Bytes { a: Op<2> },
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "enumtype")]
    pub enum Typestructure {
        #[cborrepr(cbortype = "tag")]
        Tag(Op<6>),
        #[cborrepr(cbortype = "map")]
        Map { a: Op<5> },
        #[cborrepr(cbortype = "array")]
        Array(Op<4>),
        #[cborrepr(cbortype = "negative")]
        Negative(Op<1>),
    }
}
