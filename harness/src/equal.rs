//! equality of values: equal exactly when type, content and encoding are the same
//! (cell 200: the one index that is looked at, which is any)
use crate::ops::*;
use crate::spec::*;
use crate::writing::*;
use cbored::state::HeaderValue;
use cbored::tagged::*;
use cbored::*;

fn raw(h: HeaderValue) -> (u8, u64) {
    match h {
        HeaderValue::Imm(x) => (0, x as u64),
        HeaderValue::U8(x) => (1, x as u64),
        HeaderValue::U16(x) => (2, x as u64),
        HeaderValue::U32(x) => (3, x as u64),
        HeaderValue::U64(x) => (4, x),
    }
}
/// the same header bytes
fn as_one(a: HeaderValue, b: HeaderValue) -> bool {
    let (w, n) = raw(a);
    let (v, m) = raw(b);
    w == v && n == m
}
fn header() -> HeaderValue {
    any()
}
fn len_as_one(a: StructureLength, b: StructureLength) -> bool {
    match (a, b) {
        (StructureLength::Indefinite, StructureLength::Indefinite) => true,
        (StructureLength::Definite(a), StructureLength::Definite(b)) => as_one(a, b),
        _ => false,
    }
}
/// both comparisons say what has to be said
fn exactly<T: PartialEq>(x: &T, y: &T, e: bool) {
    prove(C44, (x == y) == e);
    prove(C44, (x != y) == !e);
}

// ------------------------------------------------------------ elements that are a header
macro_rules! header_type {
    ($name:ident, $t:ty, $x:ident => $h:expr) => {
        pub fn $name() {
            let x: $t = any();
            let y: $t = any();
            let a = {
                let $x = &x;
                $h
            };
            let b = {
                let $x = &y;
                $h
            };
            exactly(&x, &y, as_one(a, b));
        }
    };
}
header_type!(header_value, HeaderValue, x => *x);
header_type!(positive, Positive, x => x.raw_value());
header_type!(negative, Negative, x => x.raw_value());
header_type!(tag_value, TagValue, x => x.raw_value());
pub fn scalar() {
    let x: Scalar = any();
    let y: Scalar = any();
    exactly(&x, &y, x.is_positive() == y.is_positive() && as_one(x.raw_value(), y.raw_value()));
}
pub fn structure_length() {
    let x: StructureLength = any();
    let y: StructureLength = any();
    exactly(&x, &y, len_as_one(x, y));
}
/// bytes as they are read, in both widths
pub fn byte(d: &[u8]) {
    let mut r = some_reader(d);
    let mut s = some_reader(d);
    let i = r.consumed_bytes();
    let j = s.consumed_bytes();
    if let (Ok(x), Ok(y)) = (r.byte(), s.byte()) {
        if x == y {
            same(C44, &d[i..r.consumed_bytes()], &d[j..s.consumed_bytes()]);
            prove(C44, !(x != y));
        } else {
            prove(C44, x != y);
            prove(C44, d[i] != d[j] || d[i] == 0xf8 && d[i + 1] != d[j + 1]);
        }
    }
}
pub fn float() {
    let x: Float = any();
    let y: Float = any();
    let e = match (x, y) {
        (Float::FP16(a), Float::FP16(b)) => a == b,
        (Float::FP32(a), Float::FP32(b)) => a == b,
        (Float::FP64(a), Float::FP64(b)) => a == b,
        _ => false,
    };
    exactly(&x, &y, e);
}
pub fn constant() {
    let x: Constant = any();
    let y: Constant = any();
    exactly(&x, &y, number(x) == number(y));
}
fn number(c: Constant) -> u8 {
    match c {
        Constant::False => 0,
        Constant::True => 1,
        Constant::Null => 2,
        Constant::Undefined => 3,
    }
}

// ------------------------------------------------------------ strings and structures
type Slice = CborSlice;
type Owned = <CborSlice as ToOwned>::Owned;
macro_rules! agree {
    ($string:ident, $data:ident, $t:ident, $d:ty, $as:ident) => {
        fn $data(a: &$d, b: &$d) {
            prove(C44, as_one(a.value(), b.value()));
            same(C44, a.$as(), b.$as());
        }
        fn $string(x: &$t, y: &$t) {
            match (x, y) {
                ($t::Imm(a), $t::Imm(b)) => $data(a, b),
                ($t::Chunks(a), $t::Chunks(b)) => {
                    prove(C44, a.len() == b.len());
                    let k = gget::<usize, 200>();
                    if k < a.len() {
                        $data(&a[k], &b[k]);
                    }
                }
                _ => fail(C44, "a definite string equals an indefinite one"),
            }
        }
    };
}
agree!(bytes_agree, bytes_data_agree, Bytes, BytesData, as_slice);
agree!(text_agree, text_data_agree, Text, TextData, as_str);
agree!(bytes_owned_agree, bytes_data_owned_agree, BytesOwned, BytesDataOwned, as_slice);
agree!(text_owned_agree, text_data_owned_agree, TextOwned, TextDataOwned, as_str);
macro_rules! agree {
    ($array:ident, $a:ty, $e:ty, $map:ident, $m:ty, $tag:ident, $t:ty, $data:ident, $d:ident, $bytes:ident, $text:ident) => {
        fn $array(x: &$a, y: &$a) {
            prove(C44, len_as_one(x.struct_len(), y.struct_len()));
            prove(C44, x.len() == y.len());
            let k = gget::<usize, 200>();
            if k < x.len() {
                same(C44, x[k].as_ref(), y[k].as_ref());
            }
        }
        fn $map(x: &$m, y: &$m) {
            prove(C44, len_as_one(x.struct_len(), y.struct_len()));
            prove(C44, x.len() == y.len());
            let k = gget::<usize, 200>();
            if k < x.len() {
                let (a, b) = (field_of::<$m, Vec<($e, $e)>>(x), field_of::<$m, Vec<($e, $e)>>(y));
                same(C44, a[k].0.as_ref(), b[k].0.as_ref());
                same(C44, a[k].1.as_ref(), b[k].1.as_ref());
            }
        }
        fn $tag(x: &$t, y: &$t) {
            prove(C44, as_one(x.tag_repr().raw_value(), y.tag_repr().raw_value()));
            same(C44, x.data().as_ref(), y.data().as_ref());
        }
        fn $data(x: &$d, y: &$d) {
            match (x, y) {
                ($d::Positive(a), $d::Positive(b)) => prove(C44, as_one(a.raw_value(), b.raw_value())),
                ($d::Negative(a), $d::Negative(b)) => prove(C44, as_one(a.raw_value(), b.raw_value())),
                ($d::Float(a), $d::Float(b)) => same(C44, a, b),
                ($d::Byte(a), $d::Byte(b)) => same(C44, a, b),
                ($d::Bytes(a), $d::Bytes(b)) => $bytes(a, b),
                ($d::Text(a), $d::Text(b)) => $text(a, b),
                ($d::Array(a), $d::Array(b)) => $array(a, b),
                ($d::Map(a), $d::Map(b)) => $map(a, b),
                ($d::Tag(a), $d::Tag(b)) => $tag(a, b),
                ($d::True, $d::True) => (),
                ($d::False, $d::False) => (),
                ($d::Null, $d::Null) => (),
                ($d::Undefined, $d::Undefined) => (),
                _ => fail(C44, "elements of different types are equal"),
            }
        }
    };
}
agree!(array_agree, Array, &Slice, map_agree, Map, tag_agree, Tag, data_agree, Data, bytes_agree, text_agree);
agree!(
    array_owned_agree, ArrayOwned, Owned, map_owned_agree, MapOwned, tag_owned_agree, TagOwned, data_owned_agree,
    DataOwned, bytes_owned_agree, text_owned_agree
);
macro_rules! compared {
    ($imp:ident, $ne:ident, $refl:ident, $t:ty, $agree:ident) => {
        /// equal values are the same in everything
        pub fn $imp() {
            gset::<usize, 200>(any());
            let x: $t = any();
            let y: $t = any();
            if x == y {
                $agree(&x, &y);
            }
        }
        pub fn $ne() {
            gset::<usize, 200>(any());
            let x: $t = any();
            let y: $t = any();
            if !(x != y) {
                $agree(&x, &y);
            }
        }
        /// a copy is equal
        pub fn $refl() {
            gset::<usize, 200>(any());
            let x: $t = any();
            let y = x.clone();
            prove(C44, x == y);
            prove(C44, !(x != y));
        }
    };
}
compared!(bytes_equal, bytes_differ, bytes_copy, Bytes, bytes_agree);
compared!(text_equal, text_differ, text_copy, Text, text_agree);
compared!(bytes_data_equal, bytes_data_differ, bytes_data_copy, BytesData, bytes_data_agree);
compared!(text_data_equal, text_data_differ, text_data_copy, TextData, text_data_agree);
compared!(array_equal, array_differ, array_copy, Array, array_agree);
compared!(map_equal, map_differ, map_copy, Map, map_agree);
compared!(tag_equal, tag_differ, tag_copy, Tag, tag_agree);
compared!(data_equal, data_differ, data_copy, Data, data_agree);
compared!(bytes_owned_equal, bytes_owned_differ, bytes_owned_copy, BytesOwned, bytes_owned_agree);
compared!(text_owned_equal, text_owned_differ, text_owned_copy, TextOwned, text_owned_agree);
compared!(bytes_data_owned_equal, bytes_data_owned_differ, bytes_data_owned_copy, BytesDataOwned, bytes_data_owned_agree);
compared!(text_data_owned_equal, text_data_owned_differ, text_data_owned_copy, TextDataOwned, text_data_owned_agree);
compared!(array_owned_equal, array_owned_differ, array_owned_copy, ArrayOwned, array_owned_agree);
compared!(map_owned_equal, map_owned_differ, map_owned_copy, MapOwned, map_owned_agree);
compared!(tag_owned_equal, tag_owned_differ, tag_owned_copy, TagOwned, tag_owned_agree);
compared!(data_owned_equal, data_owned_differ, data_owned_copy, DataOwned, data_owned_agree);

// ------------------------------------------------------------ slices and tagged types
pub fn slice(d: &[u8]) {
    let x = cbor_of(part(d));
    let y = cbor_of(part(d));
    if x == y {
        same(C44, x.as_ref(), y.as_ref());
    } else {
        prove(C44, x.as_ref() != y.as_ref());
    }
}
pub fn slice_owned(d: &[u8]) {
    let x = cbor_of(part(d)).to_owned();
    let y = cbor_of(part(d)).to_owned();
    if x == y {
        same(C44, x.as_ref(), y.as_ref());
    } else {
        prove(C44, x.as_ref() != y.as_ref());
    }
}
/// tagged values are equal exactly when tag and content are
macro_rules! tagged {
    ($name:ident, $t:ty, $c:ty) => {
        pub fn $name() {
            gset::<usize, 200>(any());
            let x: $t = any();
            let y: $t = any();
            if x == y {
                prove(C44, as_one(field_of::<$t, TagValue>(&x).raw_value(), field_of::<$t, TagValue>(&y).raw_value()));
                let a = field_of::<$t, $c>(&x);
                let b = field_of::<$t, $c>(&y);
                tagged_content(&a, &b);
            }
            let z = x.clone();
            prove(C44, x == z);
        }
    };
}
trait Content {
    fn agree(&self, o: &Self);
}
fn tagged_content<T: Content>(a: &T, b: &T) {
    a.agree(b)
}
impl Content for TextOwned {
    fn agree(&self, o: &Self) {
        text_owned_agree(self, o)
    }
}
impl Content for BytesOwned {
    fn agree(&self, o: &Self) {
        bytes_owned_agree(self, o)
    }
}
tagged!(date, StandardDateTime, TextOwned);
tagged!(positive_bignum, PositiveBignum, BytesOwned);
tagged!(negative_bignum, NegativeBignum, BytesOwned);
tagged!(encoded_cbor, EncodedCBOR, BytesOwned);
type N = RationalNumber;
type Top = RationalNumerator;
type Bottom = RationalDenominator;
fn top_agree(a: &Top, b: &Top) {
    match (a, b) {
        (Top::Positive(a), Top::Positive(b)) => prove(C44, as_one(a.raw_value(), b.raw_value())),
        (Top::Negative(a), Top::Negative(b)) => prove(C44, as_one(a.raw_value(), b.raw_value())),
        // (when bignums are equal: above)
        (Top::PositiveBignum(_), Top::PositiveBignum(_)) => (),
        (Top::NegativeBignum(_), Top::NegativeBignum(_)) => (),
        _ => fail(C44, "numerators of different types are equal"),
    }
}
fn bottom_agree(a: &Bottom, b: &Bottom) {
    match (a, b) {
        (Bottom::Positive(a), Bottom::Positive(b)) => prove(C44, as_one(a.raw_value(), b.raw_value())),
        (Bottom::PositiveBignum(_), Bottom::PositiveBignum(_)) => (),
        _ => fail(C44, "denominators of different types are equal"),
    }
}
compared!(numerator_equal, numerator_differ, numerator_copy, RationalNumerator, top_agree);
compared!(denominator_equal, denominator_differ, denominator_copy, RationalDenominator, bottom_agree);
fn short(v: HeaderValue) {
    match v {
        HeaderValue::Imm(_) => (),
        _ => assume(false),
    }
}
fn simple(x: &N) {
    short(field_of::<N, TagValue>(x).raw_value());
    match field_of::<N, StructureLength>(x) {
        StructureLength::Indefinite => (),
        StructureLength::Definite(v) => short(v),
    }
    match field_of::<N, Top>(x) {
        Top::Positive(v) => short(v.raw_value()),
        _ => assume(false),
    }
    match field_of::<N, Bottom>(x) {
        Bottom::Positive(v) => short(v.raw_value()),
        _ => assume(false),
    }
}
/// every field counts (the cases of each: above)
pub fn rational_equal() {
    gset::<usize, 200>(any());
    let x: N = any();
    let y: N = any();
    simple(&x);
    if x == y {
        prove(C44, as_one(field_of::<N, TagValue>(&x).raw_value(), field_of::<N, TagValue>(&y).raw_value()));
        prove(C44, len_as_one(field_of::<N, StructureLength>(&x), field_of::<N, StructureLength>(&y)));
        top_agree(&field_of::<N, Top>(&x), &field_of::<N, Top>(&y));
        bottom_agree(&field_of::<N, Bottom>(&x), &field_of::<N, Bottom>(&y));
    }
}
pub fn rational_copy() {
    gset::<usize, 200>(any());
    let x: N = any();
    simple(&x);
    let z = x.clone();
    prove(C44, x == z);
}
