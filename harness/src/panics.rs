//! programs in which nothing may panic (with the state machine replaced by one that answers anything)
use crate::ops::*;
use cbored::*;

/// the position of a reader (asking moves nothing)
fn accounts(r: &Reader, d: &[u8]) {
    let i = r.consumed_bytes();
    let n = r.remaining_bytes();
    prove(C20, i <= d.len());
    prove(C20, n == d.len() - i);
    prove(C20, r.is_finished() == (n == 0));
    match r.expect_finished() {
        Ok(()) => prove(C20, n == 0),
        Err(ReaderError::NotTerminated { at, remaining_bytes, next_byte }) => {
            prove(C20, n > 0);
            prove(C20, at == i);
            prove(C20, remaining_bytes == n);
            prove(C20, next_byte == d[i]);
        }
        Err(_) => fail(C20, "trailing data is reported as such"),
    }
    prove(C20, r.consumed_bytes() == i);
}

// each operation is looked at on its own, on a reader in any state: the questions that follow it show
// that it leaves the reader in such a state again, whatever it returned
macro_rules! op {
    ($name:ident, $d:ident, $r:ident => $e:expr) => {
        pub fn $name($d: &[u8]) {
            let mut $r = some_reader($d);
            let i = $r.consumed_bytes();
            accounts(&$r, $d);
            let _ = $e;
            prove(C20, $r.consumed_bytes() >= i);
            accounts(&$r, $d);
            let _ = $r.peek_type();
        }
    };
}
op!(new, d, r => {
    let r = Reader::new(d);
    prove(C20, r.consumed_bytes() == 0);
    accounts(&r, d);
    let _ = r.peek_type();
});
op!(positive, d, r => r.positive());
op!(negative, d, r => r.negative());
op!(scalar, d, r => r.scalar());
op!(byte, d, r => r.byte());
op!(float, d, r => r.float());
op!(constant, d, r => r.constant());
op!(null, d, r => r.null());
op!(undefined, d, r => r.undefined());
op!(bool_, d, r => r.bool());
op!(bytes, d, r => r.bytes());
op!(text, d, r => r.text());
op!(array, d, r => r.array());
op!(map, d, r => r.map());
op!(tag, d, r => r.tag());
op!(data, d, r => r.data());
op!(exact_slice, d, r => r.exact_decodable_slice::<Op<0>>());
op!(exact_data, d, r => r.exact_decodable_data::<Op<0>>());
op!(decode, d, r => r.decode::<Op<0>>());
op!(decode_one, d, r => r.decode_one::<Op<0>>());

/// any number of steps of the validator, whatever earlier ones returned
pub fn validator(d: &[u8]) {
    let mut v = cbored::validate::Validator::new(d);
    while nondet() {
        let _ = v.next();
        let _ = v.remaining_bytes();
    }
}
