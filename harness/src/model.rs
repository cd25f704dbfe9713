//! what stands for library functions: the consumers of iterators as plain loops, and readers of
//! longer elements that return any value
use crate::ops::*;
use crate::writing::*;
use cbored::*;

pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(it: I, init: B, f: F) -> B {
    let mut it = it;
    let mut f = f;
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}

struct Until<'a, I, X> {
    it: I,
    x: &'a mut Option<X>,
}
impl<'a, T, E, I: Iterator<Item = Result<T, E>>> Iterator for Until<'a, I, E> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.it.next() {
            Some(Ok(v)) => Some(v),
            Some(Err(e)) => {
                *self.x = Some(e);
                None
            }
            None => None,
        }
    }
}
pub fn result_from_iter<A, E, V: FromIterator<A>, I: IntoIterator<Item = Result<A, E>>>(it: I) -> Result<V, E> {
    let mut x = None;
    let v = V::from_iter(Until { it: it.into_iter(), x: &mut x });
    match x {
        None => Ok(v),
        Some(e) => Err(e),
    }
}

pub fn extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn extend_copied<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(*x);
    }
}
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(it: I, f: F) {
    let mut it = it;
    let mut f = f;
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, f: F) -> bool {
    let mut f = f;
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn any_of<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, f: F) -> bool {
    let mut f = f;
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, p: P) -> Option<I::Item> {
    let mut p = p;
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, f: F) -> Option<B> {
    let mut f = f;
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, p: P) -> Option<usize> {
    let mut p = p;
    let mut n = 0;
    while let Some(x) = it.next() {
        if p(x) {
            return Some(n);
        }
        n += 1;
    }
    None
}
pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut n = n;
    while n > 0 {
        it.next()?;
        n -= 1;
    }
    it.next()
}
pub fn last<I: Iterator>(it: I) -> Option<I::Item> {
    let mut it = it;
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}
pub fn retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, f: F) {
    let mut f = f;
    let mut it = core::mem::replace(v, Vec::new()).into_iter();
    while let Some(x) = it.next() {
        if f(&x) {
            v.push(x);
        }
    }
}
pub fn join_strings<S: AsRef<str>>(s: &[S], sep: &str) -> String {
    let mut r = String::new();
    let mut first = true;
    let mut it = s.iter();
    while let Some(x) = it.next() {
        if !first {
            r.push_str(sep);
        }
        first = false;
        r.push_str(x.as_ref());
    }
    r
}
pub fn string_from_strs<'a, I: IntoIterator<Item = &'a str>>(it: I) -> String {
    let mut r = String::new();
    string_extend_strs(&mut r, it);
    r
}
pub fn string_extend_strs<'a, I: IntoIterator<Item = &'a str>>(r: &mut String, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        r.push_str(x);
    }
}
pub fn concat_strings<S: AsRef<str>>(s: &[S]) -> String {
    let mut r = String::new();
    let mut it = s.iter();
    while let Some(x) = it.next() {
        r.push_str(x.as_ref());
    }
    r
}
/// the cells: 0 the buffer, 1 the value, 2 refused
pub fn bytes<'a>(r: &mut Reader<'a>) -> Result<Bytes<'a>, ReaderError> {
    if nondet() {
        gset::<u8, 2>(1);
        return Err(ReaderError::BytesChunksInBytesChunks);
    }
    let v = some_bytes(gget::<&'a [u8], 0>());
    // (the parts of a buffer are together no longer than a vector can be)
    crate::strings::content(&v).len();
    gset::<Bytes<'a>, 1>(v.clone());
    Ok(v)
}
pub fn text<'a>(r: &mut Reader<'a>) -> Result<Text<'a>, ReaderError> {
    if nondet() {
        gset::<u8, 2>(1);
        return Err(ReaderError::TextChunksInTextChunks);
    }
    let v = some_text(gget::<&'a [u8], 0>());
    crate::strings::text_content(&v).len();
    gset::<Text<'a>, 1>(v.clone());
    Ok(v)
}

/// nothing is known of the state machine and of other decoders
pub mod loose {
    use crate::ops::*;
    use cbored::state::*;
    use cbored::*;

    pub fn new() -> State {
        any()
    }
    pub fn event(_s: &mut State) -> Result<(), StateError> {
        if nondet() {
            Err(any())
        } else {
            Ok(())
        }
    }
    pub fn event_of(_s: &mut State, _v: HeaderValueStream) -> Result<(), StateError> {
        if nondet() {
            Err(any())
        } else {
            Ok(())
        }
    }
    pub fn acceptable(_s: &State) -> bool {
        nondet()
    }
    pub fn decode<'a, const N: usize>(r: &mut Reader<'a>) -> Result<Op<N>, DecodeError> {
        // any number of bytes is consumed
        while nondet() {
            let _ = r.positive();
        }
        if nondet() {
            Ok(any())
        } else {
            let e: DecodeErrorKind = any();
            Err(e.context::<Op<N>>())
        }
    }
}
/// an arbitrary decoder, and what it did (cell 1 the value, 2 how much it left)
pub mod whole {
    use crate::ops::*;
    use cbored::*;
    pub fn decode<'a, const N: usize>(r: &mut Reader<'a>) -> Result<Op<N>, DecodeError> {
        while nondet() {
            let _ = r.positive();
        }
        if nondet() {
            let v: Op<N> = any();
            gset::<Op<N>, 1>(v);
            gset::<usize, 2>(r.remaining_bytes());
            Ok(v)
        } else {
            gdel::<1>();
            let e: DecodeErrorKind = any();
            Err(e.context::<Op<N>>())
        }
    }
}
/// an array of anything, and a decoder of its elements (cells: 1 the array, 4 how many elements were
/// decoded, 5 one was refused, 6 the length)
pub mod elements {
    use crate::ops::*;
    use cbored::*;
    pub fn array<'a>(_r: &mut Reader<'a>) -> Result<Array<'a>, ReaderError> {
        if nondet() {
            return Err(ReaderError::BytesChunksInBytesChunks);
        }
        let a: Array<'a> = any();
        gset::<usize, 6>(a.len());
        gset::<Array<'a>, 1>(a.clone());
        Ok(a)
    }
    pub fn decode<'a, const N: usize>(r: &mut Reader<'a>) -> Result<Op<N>, DecodeError> {
        let k = gget::<usize, 4>();
        prove(C31, !ghas::<5>());
        prove(C31, k < gget::<usize, 6>());
        prove(C31, r.consumed_bytes() == 0);
        let a = gget::<Array<'a>, 1>();
        let e = a[k];
        same(C31, reader_slice(r), e.as_ref());
        gset::<usize, 4>(k + 1);
        if nondet() {
            gset::<u8, 5>(0);
            return Err(DecodeErrorKind::OutOfRange { min: 0, max: 0, got: k as u64 }.context_str("element"));
        }
        Ok(op_of(k as u64))
    }
}
/// typed reads that answer anything (cells: 1 which, 2 the value, 3 where, 4 the error, 5 the tag, 6 what a
/// string left)
pub mod typed {
    use crate::ops::*;
    use crate::spec::*;
    use crate::writing::*;
    use cbored::*;
    pub fn bytes<'a>(r: &mut Reader<'a>) -> Result<Bytes<'a>, ReaderError> {
        if ghas::<5>() {
            read_on(r);
        } else {
            prove(C26, r.consumed_bytes() == gget::<usize, 3>());
        }
        gset::<u8, 1>(BYTES);
        gset::<usize, 6>(r.remaining_bytes());
        if nondet() {
            let e: ReaderError = any();
            gset::<ReaderError, 4>(e.clone());
            return Err(e);
        }
        let v = if ghas::<5>() { some_bytes(gget::<&'a [u8], 0>()) } else { some_bytes(reader_slice(r)) };
        gset::<Bytes<'a>, 2>(v.clone());
        Ok(v)
    }
    pub fn text<'a>(r: &mut Reader<'a>) -> Result<Text<'a>, ReaderError> {
        if ghas::<5>() {
            read_on(r);
        } else {
            prove(C26, r.consumed_bytes() == gget::<usize, 3>());
        }
        gset::<u8, 1>(TEXT);
        gset::<usize, 6>(r.remaining_bytes());
        if nondet() {
            let e: ReaderError = any();
            gset::<ReaderError, 4>(e.clone());
            return Err(e);
        }
        let v = if ghas::<5>() { some_text(gget::<&'a [u8], 0>()) } else { some_text(reader_slice(r)) };
        gset::<Text<'a>, 2>(v.clone());
        Ok(v)
    }
    macro_rules! answer {
        ($m:ident, $t:ident, $kind:expr, $v:ident => $more:expr) => {
            pub fn $m<'a>(r: &mut Reader<'a>) -> Result<$t<'a>, ReaderError> {
                prove(C26, r.consumed_bytes() == gget::<usize, 3>());
                gset::<u8, 1>($kind);
                if nondet() {
                    let e: ReaderError = any();
                    gset::<ReaderError, 4>(e.clone());
                    return Err(e);
                }
                let $v: $t<'a> = any();
                gset::<$t<'a>, 2>($v.clone());
                $more;
                Ok($v)
            }
        };
    }
    pub fn array_owned<'a>(a: &Array<'a>) -> ArrayOwned {
        same(C26, a, &gget::<Array<'a>, 2>());
        let o: ArrayOwned = any();
        gset::<ArrayOwned, 7>(o.clone());
        o
    }
    pub fn map_owned<'a>(a: &Map<'a>) -> MapOwned {
        same(C26, a, &gget::<Map<'a>, 2>());
        let o: MapOwned = any();
        gset::<MapOwned, 7>(o.clone());
        o
    }
    answer!(array, Array, ARRAY, v => ());
    answer!(map, Map, MAP, v => ());
    answer!(tag, Tag, TAG, v => {
        valid(v.tag_repr().raw_value());
        gset::<Tag<'a>, 5>(v.clone())
    });
}
/// what a rational number is made of (cells: 3 where the tag has to be, 5 the tag, 6 what the array left,
/// 7 the array, 8 9 the type of its elements; what was read of them, in threes: the value, what was left
/// after it, it was refused: 10 20 30 40 numerator, 50 60 denominator)
pub mod rational {
    use crate::ops::*;
    use crate::spec::*;
    use crate::writing::*;
    use cbored::tagged::*;
    use cbored::*;
    pub fn array<'a>(r: &mut Reader<'a>) -> Result<Array<'a>, ReaderError> {
        prove(C29, ghas::<5>() && !ghas::<7>());
        prove(C29, r.consumed_bytes() == 0);
        read_on(r);
        gset::<usize, 6>(r.remaining_bytes());
        if nondet() {
            return Err(ReaderError::BytesChunksInBytesChunks);
        }
        let a: Array<'a> = any();
        if let StructureLength::Definite(v) = field_of::<Array<'a>, StructureLength>(&a) {
            valid(v);
            assume(v.to_u64() == a.len() as u64);
        }
        gset::<Array<'a>, 7>(a.clone());
        if a.len() == 2 {
            gset::<u8, 8>(kind(a[0].as_ref()));
            gset::<u8, 9>(kind(a[1].as_ref()));
        }
        Ok(a)
    }
    fn kind(e: &[u8]) -> u8 {
        if e.len() == 0 {
            return 99;
        }
        match kind_of(e[0]) {
            Ok(POSITIVE) => POSITIVE,
            Ok(NEGATIVE) => NEGATIVE,
            Ok(TAG) => TAG,
            _ => 99,
        }
    }
    fn read<'a, T: Clone, const V: usize, const L: usize, const X: usize>(r: &mut Reader<'a>) -> Result<T, ReaderError> {
        if ghas::<X>() {
            return Err(ReaderError::BytesChunksInBytesChunks);
        }
        read_on(r);
        if ghas::<V>() {
            assume(r.remaining_bytes() == gget::<usize, L>());
            return Ok(gget::<T, V>());
        }
        if nondet() {
            gset::<u8, X>(1);
            return Err(ReaderError::BytesChunksInBytesChunks);
        }
        let v: T = any();
        gset::<usize, L>(r.remaining_bytes());
        gset::<T, V>(v.clone());
        Ok(v)
    }
    fn numerator<'a>(r: &Reader<'a>) -> bool {
        prove(C29, ghas::<7>() && r.consumed_bytes() == 0);
        let a = gget::<Array<'a>, 7>();
        prove(C29, a.len() == 2);
        if known_same(reader_slice(r), a[0].as_ref()) {
            return true;
        }
        same(C29, reader_slice(r), a[1].as_ref());
        false
    }
    pub fn positive<'a>(r: &mut Reader<'a>) -> Result<Positive, ReaderError> {
        if numerator(r) {
            read::<Positive, 10, 11, 12>(r)
        } else {
            read::<Positive, 50, 51, 52>(r)
        }
    }
    pub fn negative<'a>(r: &mut Reader<'a>) -> Result<Negative, ReaderError> {
        prove(C29, numerator(r));
        read::<Negative, 20, 21, 22>(r)
    }
    pub fn positive_bignum<'a>(r: &mut Reader<'a>) -> Result<PositiveBignum, ReaderError> {
        if numerator(r) {
            read::<PositiveBignum, 30, 31, 32>(r)
        } else {
            read::<PositiveBignum, 60, 61, 62>(r)
        }
    }
    pub fn negative_bignum<'a>(r: &mut Reader<'a>) -> Result<NegativeBignum, ReaderError> {
        prove(C29, numerator(r));
        read::<NegativeBignum, 40, 41, 42>(r)
    }
    pub fn write_positive_bignum(v: &PositiveBignum, w: &mut Writer) {
        cbor_of(bytes_of(v)).encode(w)
    }
    pub fn write_negative_bignum(v: &NegativeBignum, w: &mut Writer) {
        cbor_of(bytes_of(v)).encode(w)
    }
    pub fn write_positive(w: &mut Writer, v: Positive) {
        cbor_of(bytes_of(&v)).encode(w)
    }
    pub fn write_negative(w: &mut Writer, v: Negative) {
        cbor_of(bytes_of(&v)).encode(w)
    }
}
/// equality of slices whose elements are not bytes: when equal, the elements at the index of cell 200 are;
/// otherwise there is a place where they are not
pub mod equal {
    use crate::ops::*;
    pub fn slices<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool {
        if a.len() != b.len() {
            return false;
        }
        if nondet() {
            let k = gget::<usize, 200>();
            if k < a.len() {
                assume(a[k] == b[k]);
            }
            true
        } else {
            let i: usize = any();
            assume(i < a.len());
            assume(!(a[i] == b[i]));
            false
        }
    }
    pub fn vecs<T: PartialEq<U>, U>(a: &Vec<T>, b: &Vec<U>) -> bool {
        slices(a.as_slice(), b.as_slice())
    }
    pub fn vecs_differ<T: PartialEq<U>, U>(a: &Vec<T>, b: &Vec<U>) -> bool {
        !slices(a.as_slice(), b.as_slice())
    }
}
/// what is appended to a string, when it is the path of a decode error
pub mod path {
    use crate::ops::*;
    use cbored::*;
    pub fn append(s: &mut String, x: &str) {
        let e = gget::<DecodeError, 1>();
        let n = gget::<usize, 2>();
        let l = e.context().len();
        if n > 0 && !gget::<bool, 3>() {
            same(C43, x, "->");
            gset::<bool, 3>(true);
            return;
        }
        if n >= l {
            prove(C43, false);
            return;
        }
        let c: &str = &e.context()[l - 1 - n];
        assume(!c.is_empty());
        same(C43, x, c);
        gset::<usize, 2>(n + 1);
        gset::<bool, 3>(false);
        // (only whether it is empty matters)
        *s = any();
        assume(s.len() == n + 1);
    }
    pub fn plus(s: &mut String, x: &str) {
        append(s, x)
    }
    pub fn other(_s: &mut String, _c: char) {
        undecided()
    }
}
/// the state machine of structures, as what it is told and what it answers: every event has to be about the
/// element that is next in the buffer, and after each one it has to be asked whether an item is complete.
/// Which events it refuses and when it says so is anything (that these are the right ones is the machine's
/// own matter), but for the first: nothing is complete before it and a break is refused there.
/// (cells: 0 the buffer, 3 how far it was told, 4 where the item started, 6 it was not asked since, 7 it was told of a
/// string that is not there, 8 it
/// refused, 10 where the last item started, 12 the items, 13 the pairs of items, 14 15 the first of a pair)
pub mod ghost {
    use crate::ops::*;
    use crate::spec::*;
    use cbored::state::*;
    use cbored::*;

    const P: u64 = C11 | C12;

    pub fn new() -> State {
        gset::<usize, 4>(gget::<usize, 3>());
        gset::<bool, 6>(false);
        gset::<bool, 8>(false);
        prove(P, !gget::<bool, 7>());
        any()
    }
    fn header() -> H {
        prove(P, !gget::<bool, 8>());
        prove(P, !gget::<bool, 6>());
        prove(P, !gget::<bool, 7>());
        match header_at(gget::<&[u8], 0>(), gget::<usize, 3>()) {
            Err(_) => fail(P, "there is no element"),
            Ok(h) => h,
        }
    }
    /// the element ends at e
    fn step(e: usize) -> Result<(), StateError> {
        gset::<usize, 3>(e);
        if nondet() {
            gset::<bool, 8>(true);
            return Err(any());
        }
        gset::<bool, 6>(true);
        Ok(())
    }
    fn refused() -> Result<(), StateError> {
        gset::<bool, 8>(true);
        Err(any())
    }
    pub fn simple(_s: &mut State) -> Result<(), StateError> {
        let h = header();
        prove(P, h.kind == POSITIVE || h.kind == NEGATIVE || (h.kind >= FALSE && h.kind <= BYTE));
        step(gget::<usize, 3>() + h.adv)
    }
    pub fn tag(_s: &mut State) -> Result<(), StateError> {
        let h = header();
        prove(P, h.kind == TAG);
        step(gget::<usize, 3>() + h.adv)
    }
    pub fn brk(_s: &mut State) -> Result<(), StateError> {
        let h = header();
        prove(P, h.kind == BREAK);
        if gget::<usize, 3>() == gget::<usize, 4>() {
            return refused();
        }
        step(gget::<usize, 3>() + h.adv)
    }
    fn length(h: &H, v: HeaderValueStream) {
        match v {
            None => prove(P, h.indef),
            Some(x) => {
                prove(P, !h.indef);
                prove(P, x.to_u64() == h.val);
            }
        }
    }
    pub fn array(_s: &mut State, v: HeaderValueStream) -> Result<(), StateError> {
        let h = header();
        prove(P, h.kind == ARRAY);
        length(&h, v);
        step(gget::<usize, 3>() + h.adv)
    }
    pub fn map(_s: &mut State, v: HeaderValueStream) -> Result<(), StateError> {
        let h = header();
        prove(P, h.kind == MAP);
        length(&h, v);
        step(gget::<usize, 3>() + h.adv)
    }
    fn string(kind: u8, v: HeaderValueStream) -> Result<(), StateError> {
        let h = header();
        prove(P, h.kind == kind);
        length(&h, v);
        let c = gget::<usize, 3>() + h.adv;
        if h.indef {
            return step(c);
        }
        // the content is not there
        if h.val > (gget::<&[u8], 0>().len() - c) as u64 {
            gset::<bool, 7>(true);
            return step(c);
        }
        step(c + h.val as usize)
    }
    pub fn bytes(_s: &mut State, v: HeaderValueStream) -> Result<(), StateError> {
        string(BYTES, v)
    }
    pub fn text(_s: &mut State, v: HeaderValueStream) -> Result<(), StateError> {
        string(TEXT, v)
    }
    pub fn acceptable(_s: &State) -> bool {
        let start = gget::<usize, 4>();
        let g = gget::<usize, 3>();
        if g == start {
            return true;
        }
        if !gget::<bool, 6>() {
            return false;
        }
        gset::<bool, 6>(false);
        if nondet() {
            return false;
        }
        gset::<usize, 10>(start);
        gset::<usize, 4>(g);
        if ghas::<12>() {
            let mut v = gget::<Vec<&CborSlice>, 12>();
            v.push(cbor_of(slice_of(gget::<&[u8], 0>(), start, g)));
            gset::<Vec<&CborSlice>, 12>(v);
        }
        if ghas::<13>() {
            if gget::<bool, 14>() {
                let mut v = gget::<Vec<(&CborSlice, &CborSlice)>, 13>();
                v.push((gget::<&CborSlice, 15>(), cbor_of(slice_of(gget::<&[u8], 0>(), start, g))));
                gset::<Vec<(&CborSlice, &CborSlice)>, 13>(v);
                gset::<bool, 14>(false);
            } else {
                gset::<&CborSlice, 15>(cbor_of(slice_of(gget::<&[u8], 0>(), start, g)));
                gset::<bool, 14>(true);
            }
        }
        true
    }
}
