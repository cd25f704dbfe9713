use crate::ops::*;
use crate::spec::*;
use cbored::state::*;
use cbored::validate::*;
use cbored::*;

pub fn peek_type<'a>(d: &'a [u8]) {
    let r = some_reader(d);
    let i = r.consumed_bytes();
    let t = r.peek_type();
    prove(C01, r.consumed_bytes() == i);
    if i == d.len() {
        refuse(C01, &t, E::MissingLead);
        return;
    }
    match kind_of(d[i]) {
        Ok(k) => match &t {
            Ok(t) => prove(C01, code(t) == k),
            Err(_) => fail(C01, "a lead byte that has a meaning is refused"),
        },
        Err(x) => refuse(C01, &t, x),
    }
}

/// the read of one header: its content, or why not
macro_rules! read {
    ($name:ident, $r:ident, $e:expr, $kinds:expr, $one:expr, $v:ident, $h:ident => $check:expr) => {
        pub fn $name<'a>(d: &'a [u8]) {
            let mut $r = some_reader(d);
            let i = $r.consumed_bytes();
            let x = $e;
            let j = $r.consumed_bytes();
            match header_at(d, i) {
                Err(e) => {
                    refuse(C02, &x, e);
                    prove(C03, i == j);
                }
                Ok($h) => {
                    if $kinds($h.kind) {
                        match x {
                            Ok($v) => {
                                prove(C03, j == i + $h.adv);
                                $check;
                                let w = written(&$v);
                                same(C02, w.as_slice(), slice_of(d, i, i + $h.adv));
                            }
                            Err(_) => fail(C02, "a complete element is refused"),
                        }
                    } else {
                        other_type(&x, $h.kind, $one);
                        prove(C03, i == j);
                    }
                }
            }
        }
    };
}
read!(positive, r, r.positive(), |k| k == POSITIVE, POSITIVE, v, h => prove(C02, v.to_u64() == h.val));
read!(negative, r, r.negative(), |k| k == NEGATIVE, NEGATIVE, v, h => prove(C02, v.negative_u64() == h.val));
read!(scalar, r, r.scalar(), |k| k == NEGATIVE || k == POSITIVE, NEGATIVE, v, h => {
    prove(C02, v.is_positive() == (h.kind == POSITIVE));
    prove(C02, v.raw_value().to_u64() == h.val)
});
read!(byte, r, r.byte(), |k| k == BYTE, BYTE, v, h => prove(C02, v.to_u8() as u64 == h.val));
read!(float, r, r.float(), |k| k == FLOAT, FLOAT, v, h => match v {
    Float::FP16(x) => prove(C02, h.adv == 3 && x as u64 == h.val),
    Float::FP32(x) => prove(C02, h.adv == 5 && x as u64 == h.val),
    Float::FP64(x) => prove(C02, h.adv == 9 && x as u64 == h.val),
});
read!(constant, r, r.constant(), |k| k >= FALSE && k <= UNDEFINED, FALSE, v, h => match v {
    Constant::False => prove(C02, h.kind == FALSE),
    Constant::True => prove(C02, h.kind == TRUE),
    Constant::Null => prove(C02, h.kind == NULL),
    Constant::Undefined => prove(C02, h.kind == UNDEFINED),
});
read!(bool_, r, r.bool(), |k| k == FALSE || k == TRUE, FALSE, v, h => prove(C02, v == (h.kind == TRUE)));
read!(null, r, r.null().map(|_| Constant::Null), |k| k == NULL, NULL, v, h => ());
read!(undefined, r, r.undefined().map(|_| Constant::Undefined), |k| k == UNDEFINED, UNDEFINED, v, h => ());

/// the reads of longer elements, when something else is there
macro_rules! refuse {
    ($name:ident, $m:ident, $kind:expr) => {
        pub fn $name<'a>(d: &'a [u8]) {
            let mut r = some_reader(d);
            let i = r.consumed_bytes();
            match header_at(d, i) {
                Err(e) => {
                    let x = r.$m();
                    refuse(C03, &x, e);
                    prove(C03, i == r.consumed_bytes());
                }
                Ok(h) => {
                    if h.kind != $kind {
                        let x = r.$m();
                        other_type(&x, h.kind, $kind);
                        prove(C03, i == r.consumed_bytes());
                    }
                }
            }
        }
    };
}
refuse!(refuse_bytes, bytes, BYTES);
refuse!(refuse_text, text, TEXT);
refuse!(refuse_array, array, ARRAY);
refuse!(refuse_map, map, MAP);
refuse!(refuse_tag, tag, TAG);
