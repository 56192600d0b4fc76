//! Types with hand-written implementations of the traits.
use std::cell::{Cell, RefCell};

use mccore::model::*;
use oasis_cbor::{Decode, DecodeError, Encode, EncodeAsMap, Value};

use crate::schema::*;
use crate::subj::*;

/// A call of a required method.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Call {
    Encode(u8, M),
    Decode(u8, M),
    Default(u8),
}

thread_local! {
    /// Calls made of the real implementations.
    static REAL: RefCell<Vec<Call>> = const { RefCell::new(vec![]) };
    /// Calls the reference expects, and whether it keeps track of them.
    static WANT: RefCell<Vec<Call>> = const { RefCell::new(vec![]) };
    static TRACK: Cell<bool> = const { Cell::new(false) };
    /// The decoding call to fail, and the error to fail with.
    static FAULT: Cell<Option<(usize, DErrs)>> = const { Cell::new(None) };
}

fn real(c: Call) {
    REAL.with(|r| r.borrow_mut().push(c));
}
pub fn want(c: impl FnOnce() -> Call) {
    if TRACK.with(|t| t.get()) {
        WANT.with(|r| r.borrow_mut().push(c()));
    }
}
/// Runs a part of the reference that no call corresponds to.
pub fn aside<T>(f: impl FnOnce() -> T) -> T {
    let on = TRACK.with(|t| t.replace(false));
    let r = f();
    TRACK.with(|t| t.set(on));
    r
}
fn sorted(mut v: Vec<Call>) -> Vec<Call> {
    v.sort();
    v
}
/// What `f` returns, and the calls it makes.
pub fn calls<T>(f: impl FnOnce() -> T) -> (T, Vec<Call>) {
    REAL.with(|r| r.borrow_mut().clear());
    let r = f();
    (r, sorted(REAL.with(|r| std::mem::take(&mut *r.borrow_mut()))))
}
/// The same of the reference.
pub fn wanted<T>(f: impl FnOnce() -> T) -> (T, Vec<Call>) {
    WANT.with(|r| r.borrow_mut().clear());
    TRACK.with(|t| t.set(true));
    let r = f();
    TRACK.with(|t| t.set(false));
    (r, sorted(WANT.with(|r| std::mem::take(&mut *r.borrow_mut()))))
}
/// What `f` returns if the decoding call numbered `at` fails, and whether it came to that.
pub fn failing<T>(at: usize, e: DErrs, f: impl FnOnce() -> T) -> (T, bool) {
    FAULT.with(|x| x.set(Some((at, e))));
    let r = f();
    (r, FAULT.with(|x| x.take()).is_none())
}

pub fn error(e: DErrs) -> DecodeError {
    match e {
        PARSE => DecodeError::ParsingFailed,
        TYPE => DecodeError::UnexpectedType,
        MISSING => DecodeError::MissingField,
        UNKNOWN => DecodeError::UnknownField,
        SIZE => DecodeError::UnexpectedIntegerSize,
        _ => panic!(),
    }
}
fn fault() -> Result<(), DecodeError> {
    FAULT.with(|x| match x.get() {
        None => Ok(()),
        Some((0, e)) => {
            x.set(None);
            Err(error(e))
        }
        Some((n, e)) => {
            x.set(Some((n - 1, e)));
            Ok(())
        }
    })
}

/// Items that the types refuse, each with another error.
pub fn refused(m: &M) -> Option<DErrs> {
    match m {
        M::U(n @ 60..=64) => Some(1 << (n - 60)),
        _ => None,
    }
}
pub fn default_of(k: u8) -> Result<M, DErrs> {
    match k {
        1 | 3 => Ok(M::U(5)),
        2 => Err(SIZE),
        _ => Err(MISSING),
    }
}
pub fn decoded(k: u8, m: &M) -> Result<M, DErrs> {
    match (refused(m), m) {
        (Some(e), _) => Err(e),
        (None, M::Map(_)) => Ok(m.clone()),
        _ if k == 4 => Err(TYPE),
        _ => Ok(m.clone()),
    }
}
/// Whether an optional field holding it is left out.
pub fn left_out_of(k: u8, m: &M) -> bool {
    match k {
        1 => *m == M::U(7),
        2 => matches!(m, M::A(_)),
        _ => false,
    }
}

/// 0: required methods only. 1: a notion of empty, and a default that is not the empty value.
/// 2: decides about omission in `into_optional_cbor_value` alone. 3: decodes null and undefined
/// itself. 4: always a map.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Own<const K: u8>(pub M);

pub fn is_seven<const K: u8>(x: &Own<K>) -> bool {
    x.0 == M::U(7)
}

impl<const K: u8> Default for Own<K> {
    fn default() -> Self {
        Own(own_default(K))
    }
}
pub fn own_default(k: u8) -> M {
    if k == 4 { M::Map(vec![]) } else { M::U(9) }
}
impl<const K: u8> Subj for Own<K> {
    fn ty() -> Ty {
        Ty::Own(K)
    }
    fn to_d(&self) -> D {
        D::Val(self.0.clone())
    }
    fn from_d(d: &D) -> Self {
        match d {
            D::Val(m) => Own(m.clone()),
            _ => panic!("{d:?}"),
        }
    }
}

fn encode(k: u8, m: M) -> Value {
    let v = to_value(&m);
    real(Call::Encode(k, m.canon()));
    v
}
fn decode<const K: u8>(v: Value) -> Result<Own<K>, DecodeError> {
    let m = from_value(&v).unwrap();
    real(Call::Decode(K, m.canon()));
    fault()?;
    decoded(K, &m).map(Own).map_err(error)
}
fn default<const K: u8>() -> Result<Own<K>, DecodeError> {
    real(Call::Default(K));
    fault()?;
    default_of(K).map(Own).map_err(error)
}

impl Encode for Own<0> {
    fn into_cbor_value(self) -> Value {
        encode(0, self.0)
    }
}
impl Decode for Own<0> {
    fn try_from_cbor_value(value: Value) -> Result<Self, DecodeError> {
        decode(value)
    }
}
impl Encode for Own<1> {
    fn is_empty(&self) -> bool {
        left_out_of(1, &self.0)
    }
    fn into_cbor_value(self) -> Value {
        encode(1, self.0)
    }
}
impl Decode for Own<1> {
    fn try_default() -> Result<Self, DecodeError> {
        default()
    }
    fn try_from_cbor_value(value: Value) -> Result<Self, DecodeError> {
        decode(value)
    }
}
impl Encode for Own<2> {
    fn into_cbor_value(self) -> Value {
        encode(2, self.0)
    }
    fn into_optional_cbor_value(self) -> Option<Value> {
        if left_out_of(2, &self.0) {
            return None;
        }
        Some(self.into_cbor_value())
    }
}
impl Decode for Own<2> {
    fn try_default() -> Result<Self, DecodeError> {
        default()
    }
    fn try_from_cbor_value(value: Value) -> Result<Self, DecodeError> {
        decode(value)
    }
}
impl Encode for Own<3> {
    fn into_cbor_value(self) -> Value {
        encode(3, self.0)
    }
}
impl Decode for Own<3> {
    fn try_default() -> Result<Self, DecodeError> {
        default()
    }
    fn try_from_cbor_value(value: Value) -> Result<Self, DecodeError> {
        decode(value)
    }
    fn try_from_cbor_value_default(value: Value) -> Result<Self, DecodeError> {
        Self::try_from_cbor_value(value)
    }
}
impl Encode for Own<4> {
    fn into_cbor_value(self) -> Value {
        encode(4, self.0)
    }
}
impl EncodeAsMap for Own<4> {}
impl Decode for Own<4> {
    fn try_from_cbor_value(value: Value) -> Result<Self, DecodeError> {
        decode(value)
    }
}
