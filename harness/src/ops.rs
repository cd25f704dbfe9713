//! unknown values, decoders and encoders, and the questions put to the analysis
//! (the bodies of the functions that loop are never looked at)
use cbored::*;

macro_rules! props {
    ($($n:ident = $i:literal),*) => { $(pub const $n: u64 = 1 << $i;)* };
}
props!(
    C01 = 1, C02 = 2, C03 = 3, C04 = 4, C05 = 5, C06 = 6, C07 = 7, C08 = 8, C09 = 9, C10 = 10,
    C11 = 11, C12 = 12, C13 = 13, C14 = 14, C15 = 15, C16 = 16, C17 = 17, C18 = 18, C19 = 19,
    C20 = 20, C21 = 21, C22 = 22, C23 = 23, C24 = 24, C25 = 25, C26 = 26, C27 = 27, C28 = 28,
    C29 = 29, C30 = 30, C31 = 31, C32 = 32, C33 = 33, C34 = 34, C35 = 35, C36 = 36, C37 = 37,
    C38 = 38, C39 = 39, C40 = 40, C41 = 41, C42 = 42, C43 = 43, C44 = 44
);

/// an unknown choice
#[inline(never)]
pub fn nondet() -> bool {
    loop {}
}
/// an unknown value of the type
#[inline(never)]
pub fn any<T>() -> T {
    loop {}
}
/// only look at what follows when this holds
#[inline(never)]
pub fn assume(_c: bool) {
    loop {}
}
/// this has to hold here (the first argument says for which properties: a set of bits)
#[inline(never)]
pub fn prove(_p: u64, _c: bool) {
    loop {}
}
/// these two values have to be equal here
#[inline(never)]
pub fn same<A: ?Sized, B: ?Sized>(_p: u64, _a: &A, _b: &B) {
    loop {}
}
/// this place must not be reachable
#[inline(never)]
pub fn fail(_p: u64, _m: &'static str) -> ! {
    loop {}
}
/// the analysis has to get here
#[inline(never)]
pub fn reached(_p: u64, _m: &'static str) {
    loop {}
}
/// cells of the analysis
#[inline(never)]
pub fn gget<T, const N: usize>() -> T {
    loop {}
}
#[inline(never)]
pub fn gset<T, const N: usize>(_t: T) {
    loop {}
}
#[inline(never)]
pub fn gdel<const N: usize>() {
    loop {}
}
#[inline(never)]
pub fn ghas<const N: usize>() -> bool {
    loop {}
}
/// a part of a slice (no bounds check of the program)
#[inline(never)]
pub fn slice_of<'a>(_d: &'a [u8], _a: usize, _b: usize) -> &'a [u8] {
    loop {}
}

/// for enumerations that cannot be named from here: is it this variant, and what is in its field
#[inline(never)]
pub fn is_variant<T>(_t: &T, _name: &'static str) -> bool {
    loop {}
}
#[inline(never)]
pub fn payload<T, U, const N: usize>(_t: &T) -> U {
    loop {}
}

/// is it known that these are equal (otherwise they may be, or not)
#[inline(never)]
pub fn known_same<A: ?Sized, B: ?Sized>(_a: &A, _b: &B) -> bool {
    loop {}
}
/// nothing is said about programs that get here
#[inline(never)]
pub fn undecided() {
    loop {}
}
/// the only field that has the type
#[inline(never)]
pub fn field_of<T, U>(_t: &T) -> U {
    loop {}
}

/// an arbitrary type that has a decoder and an encoder
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Op<const N: usize>(u64);

pub fn op_of<const N: usize>(k: u64) -> Op<N> {
    Op(k)
}

#[inline(never)]
pub fn op_decode<'a, const N: usize>(_r: &mut Reader<'a>) -> Result<Op<N>, DecodeError> {
    loop {}
}
/// the bytes that the arbitrary encoder appends
#[inline(never)]
pub fn op_bytes<'a, const N: usize>(_t: &'a Op<N>) -> &'a [u8] {
    loop {}
}
/// the bytes that an arbitrary encoder of the type makes of the value
#[inline(never)]
pub fn bytes_of<'a, T>(_t: &'a T) -> &'a [u8] {
    loop {}
}
/// any number of bytes is read
#[inline(never)]
pub fn read_on<'a>(_r: &mut Reader<'a>) {
    loop {}
}
/// the bytes that a reader reads from
#[inline(never)]
pub fn reader_slice<'a>(_r: &Reader<'a>) -> &'a [u8] {
    loop {}
}
#[inline(never)]
pub fn cbor_of<'a>(_b: &'a [u8]) -> &'a CborSlice {
    loop {}
}

impl<const N: usize> Decode for Op<N> {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        op_decode::<N>(r)
    }
}
impl<const N: usize> Encode for Op<N> {
    fn encode(&self, w: &mut Writer) {
        cbor_of(op_bytes::<N>(self)).encode(w)
    }
}

/// a reader in any state that reading can put it in
pub fn some_reader<'a>(d: &'a [u8]) -> Reader<'a> {
    let mut r = Reader::new(d);
    while nondet() {
        let _ = r.positive();
    }
    r
}
/// from here on, go through loops one iteration after the other (as far as there are few)
#[inline(never)]
pub fn unroll() {
    loop {}
}
/// the same value once more (of a type that owns what it holds)
#[inline(never)]
pub fn copy_of<T>(_t: &T) -> T {
    loop {}
}
