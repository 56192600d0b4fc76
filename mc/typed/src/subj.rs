//! Rust types under test, with conversions to and from dynamic data.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;
use std::sync::Arc;

use mccore::model::{from_value, to_value};
use oasis_cbor::{Decode, DecodeError, Encode, Value};

use crate::schema::*;

pub trait Subj: Sized {
    fn ty() -> Ty;
    fn to_d(&self) -> D;
    fn from_d(d: &D) -> Self;
    /// For `Vec` and arrays: bytes have a type of their own.
    fn vec_ty() -> Ty {
        Ty::Seq(Arc::new(Self::ty()))
    }
    fn arr_ty(n: usize) -> Ty {
        Ty::Arr(Arc::new(Self::ty()), n)
    }
    fn slice_to_d(s: &[Self]) -> D {
        D::Seq(s.iter().map(Subj::to_d).collect())
    }
    fn vec_from_d(d: &D) -> Vec<Self> {
        d.seq().iter().map(Self::from_d).collect()
    }
}

macro_rules! ints {
    ($($t:ty, $ty:expr;)*) => {$(
        impl Subj for $t {
            fn ty() -> Ty {
                $ty
            }
            fn to_d(&self) -> D {
                D::Int(*self as i128)
            }
            fn from_d(d: &D) -> Self {
                match d {
                    D::Int(n) => (*n).try_into().unwrap(),
                    _ => panic!("{d:?}"),
                }
            }
        }
    )*};
}
ints! {
    u16, Ty::Uint(16);
    u32, Ty::Uint(32);
    u64, Ty::Uint(64);
    i8, Ty::Int(8);
    i16, Ty::Int(16);
    i32, Ty::Int(32);
    i64, Ty::Int(64);
}
impl Subj for u8 {
    fn ty() -> Ty {
        Ty::Uint(8)
    }
    fn to_d(&self) -> D {
        D::Int(*self as i128)
    }
    fn from_d(d: &D) -> Self {
        match d {
            D::Int(n) => (*n).try_into().unwrap(),
            _ => panic!("{d:?}"),
        }
    }
    fn vec_ty() -> Ty {
        Ty::Bytes
    }
    fn arr_ty(n: usize) -> Ty {
        Ty::ByteArr(n)
    }
    fn slice_to_d(s: &[u8]) -> D {
        D::Bytes(s.to_vec())
    }
    fn vec_from_d(d: &D) -> Vec<u8> {
        match d {
            D::Bytes(b) => b.clone(),
            _ => panic!("{d:?}"),
        }
    }
}
macro_rules! simple {
    ($t:ty, $ty:expr, $v:ident, $to:expr, $p:pat => $from:expr) => {
        impl Subj for $t {
            fn ty() -> Ty {
                $ty
            }
            fn to_d(&self) -> D {
                let $v = self;
                $to
            }
            fn from_d(d: &D) -> Self {
                match d {
                    $p => $from,
                    _ => panic!("{d:?}"),
                }
            }
        }
    };
}
simple!(u128, Ty::U128, s, D::Big(*s), D::Big(n) => *n);
simple!(bool, Ty::Bool, s, D::Bool(*s), D::Bool(n) => *n);
simple!(char, Ty::Char, s, D::Char(*s), D::Char(n) => *n);
simple!(String, Ty::Str, s, D::Str(s.clone()), D::Str(n) => n.clone());
simple!((), Ty::Unit, _s, D::Unit, D::Unit => ());
simple!(Value, Ty::Val, s, D::Val(from_value(s).unwrap()), D::Val(m) => to_value(m));

impl<T: Subj> Subj for Vec<T> {
    fn ty() -> Ty {
        T::vec_ty()
    }
    fn to_d(&self) -> D {
        T::slice_to_d(self)
    }
    fn from_d(d: &D) -> Self {
        T::vec_from_d(d)
    }
}
impl<T: Subj, const N: usize> Subj for [T; N] {
    fn ty() -> Ty {
        T::arr_ty(N)
    }
    fn to_d(&self) -> D {
        T::slice_to_d(self)
    }
    fn from_d(d: &D) -> Self {
        T::vec_from_d(d).try_into().ok().unwrap()
    }
}
impl<T: Subj> Subj for Option<T> {
    fn ty() -> Ty {
        Ty::Opt(Arc::new(T::ty()))
    }
    fn to_d(&self) -> D {
        match self {
            None => D::None,
            Some(v) => D::Some(Box::new(v.to_d())),
        }
    }
    fn from_d(d: &D) -> Self {
        match d {
            D::None => None,
            D::Some(d) => Some(T::from_d(d)),
            _ => panic!("{d:?}"),
        }
    }
}
impl<T: Subj> Subj for Box<T> {
    fn ty() -> Ty {
        T::ty()
    }
    fn to_d(&self) -> D {
        (**self).to_d()
    }
    fn from_d(d: &D) -> Self {
        Box::new(T::from_d(d))
    }
}
impl<T> Subj for std::marker::PhantomData<T> {
    fn ty() -> Ty {
        Ty::Unit
    }
    fn to_d(&self) -> D {
        D::Unit
    }
    fn from_d(_: &D) -> Self {
        std::marker::PhantomData
    }
}
impl Subj for &'static str {
    fn ty() -> Ty {
        Ty::Str
    }
    fn to_d(&self) -> D {
        D::Str(self.to_string())
    }
    fn from_d(d: &D) -> Self {
        kept(String::from_d(d)).as_str()
    }
}
impl Subj for &'static u128 {
    fn ty() -> Ty {
        Ty::U128
    }
    fn to_d(&self) -> D {
        D::Big(**self)
    }
    fn from_d(d: &D) -> Self {
        kept(u128::from_d(d))
    }
}
/// One copy of each for the whole run.
fn kept<T: Eq + Hash + Send + Sync + 'static + Clone>(x: T) -> &'static T {
    use std::any::Any;
    use std::sync::Mutex;
    static ALL: Mutex<Vec<Box<dyn Any + Send>>> = Mutex::new(vec![]);
    let mut all = ALL.lock().unwrap();
    let set = match all.iter().position(|s| s.is::<HashSet<&'static T>>()) {
        Some(i) => i,
        None => {
            all.push(Box::new(HashSet::<&'static T>::new()));
            all.len() - 1
        }
    };
    let set = all[set].downcast_mut::<HashSet<&'static T>>().unwrap();
    if let Some(x) = set.get(&x) {
        return x;
    }
    let x: &'static T = Box::leak(Box::new(x));
    set.insert(x);
    x
}
impl<T: Subj + Ord> Subj for BTreeSet<T> {
    fn ty() -> Ty {
        Ty::Set(Arc::new(T::ty()), false)
    }
    fn to_d(&self) -> D {
        D::Seq(self.iter().map(Subj::to_d).collect())
    }
    fn from_d(d: &D) -> Self {
        d.seq().iter().map(T::from_d).collect()
    }
}
impl<T: Subj + Eq + Hash> Subj for HashSet<T> {
    fn ty() -> Ty {
        Ty::Set(Arc::new(T::ty()), true)
    }
    fn to_d(&self) -> D {
        let mut v: Vec<D> = self.iter().map(Subj::to_d).collect();
        v.sort();
        D::Seq(v)
    }
    fn from_d(d: &D) -> Self {
        d.seq().iter().map(T::from_d).collect()
    }
}
fn map_to_d<'a, K: Subj + 'a, V: Subj + 'a>(it: impl Iterator<Item = (&'a K, &'a V)>) -> D {
    let mut v: Vec<(D, D)> = it.map(|(k, v)| (k.to_d(), v.to_d())).collect();
    v.sort();
    D::Map(v)
}
fn map_from_d<K: Subj, V: Subj>(d: &D) -> impl Iterator<Item = (K, V)> + '_ {
    match d {
        D::Map(m) => m.iter().map(|(k, v)| (K::from_d(k), V::from_d(v))),
        _ => panic!("{d:?}"),
    }
}
impl<K: Subj + Ord, V: Subj> Subj for BTreeMap<K, V> {
    fn ty() -> Ty {
        Ty::Map(Arc::new(K::ty()), Arc::new(V::ty()))
    }
    fn to_d(&self) -> D {
        map_to_d(self.iter())
    }
    fn from_d(d: &D) -> Self {
        map_from_d(d).collect()
    }
}
impl<K: Subj + Eq + Hash, V: Subj> Subj for HashMap<K, V> {
    fn ty() -> Ty {
        Ty::Map(Arc::new(K::ty()), Arc::new(V::ty()))
    }
    fn to_d(&self) -> D {
        map_to_d(self.iter())
    }
    fn from_d(d: &D) -> Self {
        map_from_d(d).collect()
    }
}
impl Subj for serde_bytes::ByteBuf {
    fn ty() -> Ty {
        Ty::Buf
    }
    fn to_d(&self) -> D {
        D::Bytes(self.to_vec())
    }
    fn from_d(d: &D) -> Self {
        match d {
            D::Bytes(b) => serde_bytes::ByteBuf::from(b.clone()),
            _ => panic!("{d:?}"),
        }
    }
}
macro_rules! tuples {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Subj),*> Subj for ($($t,)*) {
            fn ty() -> Ty {
                Ty::Tuple(vec![$($t::ty()),*])
            }
            fn to_d(&self) -> D {
                D::Seq(vec![$(self.$i.to_d()),*])
            }
            fn from_d(d: &D) -> Self {
                let v = d.seq();
                ($($t::from_d(&v[$i]),)*)
            }
        }
    };
}
tuples!(A 0);
tuples!(A 0, B 1);
tuples!(A 0, B 1, C 2);
tuples!(A 0, B 1, C 2, E 3);
tuples!(A 0, B 1, C 2, E 3, F 4);
tuples!(A 0, B 1, C 2, E 3, F 4, G 5);
tuples!(A 0, B 1, C 2, E 3, F 4, G 5, H 6);
tuples!(A 0, B 1, C 2, E 3, F 4, G 5, H 6, I 7);
tuples!(A 0, B 1, C 2, E 3, F 4, G 5, H 6, I 7, J 8);
tuples!(A 0, B 1, C 2, E 3, F 4, G 5, H 6, I 7, J 8, K 9);

pub type Res = Result<D, DErrs>;

pub fn bit(e: &DecodeError) -> DErrs {
    match e {
        DecodeError::ParsingFailed => PARSE,
        DecodeError::UnexpectedType => TYPE,
        DecodeError::MissingField => MISSING,
        DecodeError::UnknownField => UNKNOWN,
        DecodeError::UnexpectedIntegerSize => SIZE,
    }
}

pub fn derrs_names(e: DErrs) -> String {
    const N: [&str; 5] = ["ParsingFailed", "UnexpectedType", "MissingField", "UnknownField", "UnexpectedIntegerSize"];
    let v: Vec<_> = (0..5).filter(|i| e >> i & 1 == 1).map(|i| N[i]).collect();
    v.join("|")
}

/// The operations of the library on one type.
pub struct Ops {
    pub name: String,
    pub ty: Ty,
    /// The value as the type holds it (sets in their iteration order).
    pub norm: fn(&D) -> D,
    pub dec: Option<DecOps>,
    pub enc: Option<EncOps>,
    pub map: Option<MapOps>,
}
#[derive(Clone, Copy)]
pub struct EncOps {
    pub value: fn(&D) -> Value,
    pub to_value: fn(&D) -> Value,
    pub to_vec: fn(&D) -> Vec<u8>,
    pub optional: fn(&D) -> Option<Value>,
}
#[derive(Clone, Copy)]
pub struct DecOps {
    pub try_from: fn(Value) -> Res,
    pub default: fn() -> Res,
    pub try_from_default: fn(Value) -> Res,
    pub from_value: fn(Value) -> Res,
    pub from_slice: fn(&[u8]) -> Res,
    pub non_strict: fn(&[u8]) -> Res,
}
#[derive(Clone, Copy)]
pub struct MapOps {
    pub value_map: fn(&D) -> Value,
    pub entries: fn(&D) -> Vec<(Value, Value)>,
}

fn conv<T: Subj>(r: Result<T, DecodeError>) -> Res {
    match r {
        Ok(v) => Ok(v.to_d()),
        Err(e) => Err(bit(&e)),
    }
}

impl Ops {
    pub fn new<T: Subj>(name: impl ToString) -> Ops {
        Ops { name: name.to_string(), ty: T::ty(), norm: |d| T::from_d(d).to_d(), dec: None, enc: None, map: None }
    }
    pub fn enc<T: Subj + Encode>(mut self) -> Ops {
        self.enc = Some(EncOps {
            value: |d| T::from_d(d).into_cbor_value(),
            to_value: |d| oasis_cbor::to_value(T::from_d(d)),
            to_vec: |d| oasis_cbor::to_vec(T::from_d(d)),
            optional: |d| T::from_d(d).into_optional_cbor_value(),
        });
        self
    }
    pub fn dec<T: Subj + Decode>(mut self) -> Ops {
        self.dec = Some(DecOps {
            try_from: |v| conv(T::try_from_cbor_value(v)),
            default: || conv(T::try_default()),
            try_from_default: |v| conv(T::try_from_cbor_value_default(v)),
            from_value: |v| conv(oasis_cbor::from_value::<T>(v)),
            from_slice: |b| conv(oasis_cbor::from_slice::<T>(b)),
            non_strict: |b| conv(oasis_cbor::from_slice_non_strict::<T>(b)),
        });
        self
    }
    pub fn map<T: Subj + oasis_cbor::EncodeAsMap>(mut self) -> Ops {
        self.map = Some(MapOps {
            value_map: |d| oasis_cbor::EncodeAsMap::into_cbor_value_map(T::from_d(d)),
            entries: |d| oasis_cbor::EncodeAsMap::into_cbor_map(T::from_d(d)),
        });
        self
    }
    pub fn e(&self) -> &EncOps {
        self.enc.as_ref().unwrap()
    }
    pub fn d(&self) -> &DecOps {
        self.dec.as_ref().unwrap()
    }
}

pub fn ops<T: Subj + Encode + Decode>(name: impl ToString) -> Ops {
    Ops::new::<T>(name).enc::<T>().dec::<T>()
}
pub fn enc_ops<T: Subj + Encode>(name: impl ToString) -> Ops {
    Ops::new::<T>(name).enc::<T>()
}

/// Finds out whether a type carries the marker.
pub struct Probe<T>(pub std::marker::PhantomData<T>);
pub trait MapYes {
    fn mark(&self, o: Ops) -> Ops;
}
impl<T: Subj + oasis_cbor::EncodeAsMap> MapYes for Probe<T> {
    fn mark(&self, o: Ops) -> Ops {
        o.map::<T>()
    }
}
pub trait MapNo {
    fn mark(&self, o: Ops) -> Ops;
}
impl<T> MapNo for &Probe<T> {
    fn mark(&self, o: Ops) -> Ops {
        o
    }
}
#[macro_export]
macro_rules! marked {
    ($t:ty, $o:expr) => {{
        #[allow(unused_imports)]
        use $crate::subj::{MapNo, MapYes};
        (&$crate::subj::Probe::<$t>(std::marker::PhantomData)).mark($o)
    }};
}
