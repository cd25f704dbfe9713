//! the state machine of structures
use crate::ops::*;
use cbored::state::*;

fn event(s: &mut State) {
    if nondet() {
        let _ = s.simple();
    } else if nondet() {
        let _ = s.bytes(any());
    } else if nondet() {
        let _ = s.text(any());
    } else if nondet() {
        let _ = s.array(any());
    } else if nondet() {
        let _ = s.map(any());
    } else if nondet() {
        let _ = s.tag();
    } else if nondet() {
        let _ = s.brk();
    } else {
        let _ = s.acceptable();
    }
}

/// any events, whatever earlier ones returned
pub fn events() {
    let mut s = State::new();
    while nondet() {
        event(&mut s);
    }
}

// ---------------------------------------------------------------- the machine and the grammar
// A stack of open structures is what the grammar says is still to come. The machine only looks at the innermost
// one (a rule on its source), so that two open structures, each of any kind and with any number of elements to
// come, show all that an event can do: to the innermost one, and to the next when that one is complete.

#[derive(Clone, Copy)]
enum F {
    /// so many elements to come
    Array(u64),
    /// so many pairs to come, of the first only the value
    Map(u64, bool),
    Tag,
    /// up to a break
    Arrays,
    Maps(bool),
    Bytes,
    Text,
}

fn number(n: u64) -> HeaderValueStream {
    Some(HeaderValue::U64(n))
}
fn open(s: &mut State, f: F) {
    let r = match f {
        F::Array(n) => s.array(number(n)),
        F::Map(n, _) => s.map(number(n)),
        F::Tag => s.tag(),
        F::Arrays => s.array(None),
        F::Maps(_) => s.map(None),
        F::Bytes => s.bytes(None),
        F::Text => s.text(None),
    };
    prove(C11 | C12, r.is_ok());
    match f {
        F::Map(_, true) | F::Maps(true) => prove(C11 | C12, s.simple().is_ok()),
        _ => (),
    }
}
fn some_outer() -> F {
    if nondet() {
        let n: u64 = any();
        assume(n > 0);
        F::Array(n)
    } else if nondet() {
        let n: u64 = any();
        assume(n > 0);
        F::Map(n, nondet())
    } else if nondet() {
        F::Tag
    } else if nondet() {
        F::Arrays
    } else {
        F::Maps(nondet())
    }
}
fn some_inner() -> F {
    if nondet() {
        F::Bytes
    } else if nondet() {
        F::Text
    } else {
        some_outer()
    }
}

/// one element is complete
fn complete(g: &mut Vec<F>) {
    loop {
        match g.pop() {
            None => return,
            Some(F::Array(n)) => {
                if n > 1 {
                    g.push(F::Array(n - 1));
                    return;
                }
            }
            Some(F::Map(n, false)) => {
                g.push(F::Map(n, true));
                return;
            }
            Some(F::Map(n, true)) => {
                if n > 1 {
                    g.push(F::Map(n - 1, false));
                    return;
                }
            }
            Some(F::Tag) => (),
            Some(F::Maps(v)) => {
                g.push(F::Maps(!v));
                return;
            }
            Some(f) => {
                g.push(f);
                return;
            }
        }
    }
}
const SIMPLE: u8 = 0;
const BYTES: u8 = 1;
const TEXT: u8 = 2;
const ARRAY: u8 = 3;
const MAP: u8 = 4;
const TAG: u8 = 5;
const BREAK: u8 = 6;

/// what the grammar allows next, and what is to come after it
fn allowed(g: &mut Vec<F>, e: u8, n: Option<u64>) -> bool {
    let top = match g.last() {
        None => None,
        Some(f) => Some(*f),
    };
    if e == BREAK {
        return match top {
            Some(F::Arrays) | Some(F::Maps(false)) | Some(F::Bytes) | Some(F::Text) => {
                g.pop();
                complete(g);
                true
            }
            _ => false,
        };
    }
    // within indefinite strings there are only definite strings of the same type
    match top {
        Some(F::Bytes) => return e == BYTES && n.is_some(),
        Some(F::Text) => return e == TEXT && n.is_some(),
        _ => (),
    }
    match (e, n) {
        (BYTES, None) => g.push(F::Bytes),
        (TEXT, None) => g.push(F::Text),
        (ARRAY, None) => g.push(F::Arrays),
        (MAP, None) => g.push(F::Maps(false)),
        (ARRAY, Some(n)) if n > 0 => g.push(F::Array(n)),
        (MAP, Some(n)) if n > 0 => g.push(F::Map(n, false)),
        (TAG, _) => g.push(F::Tag),
        _ => complete(g),
    }
    true
}

/// (c is the state that g is on top of)
fn step(s: &mut State, mut c: State, empty: bool, g: &mut Vec<F>, e: u8) {
    let v: HeaderValueStream = any();
    let n = match v {
        None => None,
        Some(h) => Some(h.to_u64()),
    };
    let r = match e {
        SIMPLE => s.simple(),
        BYTES => s.bytes(v),
        TEXT => s.text(v),
        ARRAY => s.array(v),
        MAP => s.map(v),
        TAG => s.tag(),
        _ => s.brk(),
    };
    let ok = allowed(g, e, n);
    prove(C11 | C12, r.is_ok() == ok);
    if ok {
        // the machine is in the state of what is to come
        prove(C11 | C12, s.acceptable() == (empty && g.is_empty()));
        match g.get(0) {
            Some(f) => open(&mut c, *f),
            None => (),
        }
        match g.get(1) {
            Some(f) => open(&mut c, *f),
            None => (),
        }
        match g.get(2) {
            Some(f) => open(&mut c, *f),
            None => (),
        }
        same(C11 | C12, s, &c);
    }
}
macro_rules! steps {
    ($($name:ident, $deep:ident = $e:expr;)*) => { $(
        pub fn $name() {
            unroll();
            let mut s = State::new();
            prove(C11 | C12, s.acceptable());
            let mut g = Vec::new();
            if nondet() {
                if nondet() {
                    let f = some_outer();
                    open(&mut s, f);
                    g.push(f);
                }
                let f = some_inner();
                open(&mut s, f);
                g.push(f);
                prove(C11 | C12, !s.acceptable());
            }
            step(&mut s, State::new(), true, &mut g, $e);
        }
        /// below an indefinite array there is anything
        pub fn $deep() {
            let mut s = State::new();
            while nondet() {
                open(&mut s, some_outer());
            }
            unroll();
            prove(C11 | C12, s.array(None).is_ok());
            let c = copy_of(&s);
            let mut g = Vec::new();
            if nondet() {
                if nondet() {
                    let f = some_outer();
                    open(&mut s, f);
                    g.push(f);
                }
                let f = some_inner();
                open(&mut s, f);
                g.push(f);
            }
            prove(C11 | C12, !s.acceptable());
            // (a break of the array itself is a break of an innermost structure, above)
            assume(!(g.is_empty() && $e == BREAK));
            step(&mut s, c, false, &mut g, $e);
        }
    )* };
}
steps! {
    step_simple, deep_simple = SIMPLE;
    step_bytes, deep_bytes = BYTES;
    step_text, deep_text = TEXT;
    step_array, deep_array = ARRAY;
    step_map, deep_map = MAP;
    step_tag, deep_tag = TAG;
    step_break, deep_break = BREAK;
}
