//! decode errors and their contexts
use crate::ops::*;
use cbored::*;

fn at(e: &DecodeError, k: usize) -> &str {
    &e.context()[k]
}
/// whatever was there before stays as it was, at every place, and the new context comes last
macro_rules! pushed {
    ($name:ident, $e:ident, $s:ident => $op:expr, $want:expr) => {
        pub fn $name($s: String) {
            let $e: DecodeError = any();
            let n = $e.context().len();
            let cause: DecodeErrorKind = field_of::<DecodeError, DecodeErrorKind>(&$e);
            let k: usize = any();
            assume(k < n);
            let old: String = at(&$e, k).to_string();
            let want: String = $want;
            let x: DecodeError = $op;
            prove(C43, x.context().len() == n + 1);
            same(C43, at(&x, k), old.as_str());
            same(C43, at(&x, n), want.as_str());
            same(C43, x.error(), &cause);
        }
    };
}
pushed!(push_string, e, s => e.push_string(s), s.clone());
pushed!(push_type, e, s => e.push::<u8>(), core::any::type_name::<u8>().to_string());
pub fn push_str(s: &'static str) {
    let e: DecodeError = any();
    let n = e.context().len();
    let cause: DecodeErrorKind = field_of::<DecodeError, DecodeErrorKind>(&e);
    let k: usize = any();
    assume(k < n);
    let old: String = at(&e, k).to_string();
    let x = e.push_str(s);
    prove(C43, x.context().len() == n + 1);
    same(C43, at(&x, k), old.as_str());
    same(C43, at(&x, n), s);
    same(C43, x.error(), &cause);
}
/// the first context
fn first(x: &DecodeError, s: &str, cause: &DecodeErrorKind) {
    prove(C43, x.context().len() == 1);
    same(C43, at(x, 0), s);
    same(C43, x.error(), cause);
}
pub fn new_type() {
    let c: DecodeErrorKind = any();
    first(&c.clone().context::<u8>(), core::any::type_name::<u8>(), &c);
    first(&DecodeError::new::<u8>(c.clone()), core::any::type_name::<u8>(), &c);
}
pub fn new_str(s: &'static str) {
    let c: DecodeErrorKind = any();
    first(&c.clone().context_str(s), s, &c);
    first(&DecodeError::new_str(s, c.clone()), s, &c);
}
pub fn new_string(s: String) {
    let c: DecodeErrorKind = any();
    first(&DecodeError::new_string(s.clone(), c.clone()), s.as_str(), &c);
}
/// (table path: what is appended to a string is followed; cells: 1 the contexts, 2 how many were written,
/// 3 an arrow was written last)
pub fn path() {
    let e: DecodeError = any();
    let n = e.context().len();
    gset::<DecodeError, 1>(e.clone());
    gset::<usize, 2>(0);
    gset::<bool, 3>(false);
    let s = e.context_as_path();
    if n > 0 && gget::<usize, 2>() == 0 {
        // it is not made by appending
        undecided();
        return;
    }
    prove(C43, gget::<usize, 2>() == n);
    prove(C43, !gget::<bool, 3>());
}
