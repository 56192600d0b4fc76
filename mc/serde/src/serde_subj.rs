//! Operations of the serde layer on one type.
use oasis_cbor::{serde as cs, Value};
use serde::{de::DeserializeOwned, Serialize};

use mctyped::schema::*;
use mctyped::std_types::short;
use mctyped::subj::*;

pub type SRes = Result<D, String>;

pub struct SOps {
    pub name: String,
    pub ty: Ty,
    pub norm: fn(&D) -> D,
    pub to_value: fn(&D) -> Result<Value, String>,
    pub to_vec: fn(&D) -> Result<Vec<u8>, String>,
    pub from_value: fn(Value) -> SRes,
    pub from_slice: fn(&[u8]) -> SRes,
    /// With the errors themselves.
    pub vec: fn(&D) -> Result<Vec<u8>, cs::Error>,
    pub slice: fn(&[u8]) -> Result<D, cs::Error>,
    pub value: fn(Value) -> Result<D, cs::Error>,
    /// The same type in the native layer.
    pub native: Option<Ops>,
}

pub fn sops<T: Subj + Serialize + DeserializeOwned>(name: impl ToString) -> SOps {
    SOps {
        name: name.to_string(),
        ty: T::ty(),
        norm: |d| T::from_d(d).to_d(),
        to_value: |d| cs::to_value(&T::from_d(d)).map_err(|e| e.to_string()),
        to_vec: |d| cs::to_vec(&T::from_d(d)).map_err(|e| e.to_string()),
        from_value: |v| cs::from_value::<T>(v).map(|v| v.to_d()).map_err(|e| e.to_string()),
        from_slice: |b| cs::from_slice::<T>(b).map(|v| v.to_d()).map_err(|e| e.to_string()),
        vec: |d| cs::to_vec(&T::from_d(d)),
        slice: |b| cs::from_slice::<T>(b).map(|v| v.to_d()),
        value: |v| cs::from_value::<T>(v).map(|v| v.to_d()),
        native: None,
    }
}
impl SOps {
    pub fn native(mut self, o: Ops) -> SOps {
        self.native = Some(o);
        self
    }
}

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

macro_rules! both {
    ($v:ident; $($t:ty),* $(,)?) => {$( $v.push(sops::<$t>(short::<$t>()).native(ops::<$t>(short::<$t>()))); )*};
}
macro_rules! only {
    ($v:ident; $($t:ty),* $(,)?) => {$( $v.push(sops::<$t>(short::<$t>())); )*};
}

fn over<T: Subj + Serialize + DeserializeOwned + oasis_cbor::Encode + oasis_cbor::Decode + Ord + std::hash::Hash>(v: &mut Vec<SOps>) {
    both!(v; T, Vec<T>, Option<T>, [T; 2], (T,), (i16, T), Vec<Option<T>>, BTreeMap<T, i8>, BTreeMap<String, T>, HashMap<T, u8>, BTreeSet<T>, BTreeMap<u8, Vec<T>>, Option<(T, T)>);
    only!(v; HashSet<T>);
}

/// Integers wider than CBOR's: decoding only.
#[derive(Clone, Debug)]
struct Wide(i128);
impl Subj for Wide {
    fn ty() -> Ty {
        Ty::Int(128)
    }
    fn to_d(&self) -> D {
        D::Int(self.0)
    }
    fn from_d(d: &D) -> Self {
        match d {
            D::Int(n) => Wide(*n),
            _ => panic!("{d:?}"),
        }
    }
}
impl<'de> serde::Deserialize<'de> for Wide {
    fn deserialize<De: serde::Deserializer<'de>>(d: De) -> Result<Self, De::Error> {
        i128::deserialize(d).map(Wide)
    }
}
impl Serialize for Wide {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        panic!("decoding only")
    }
}
/// Holds integers that can only be decoded.
pub fn decode_only(name: &str) -> bool {
    name.contains("i128")
}

fn types() -> Vec<SOps> {
    let mut list = vec![];
    let v = &mut list;
    over::<u16>(v);
    over::<u32>(v);
    over::<u64>(v);
    over::<i8>(v);
    over::<i16>(v);
    over::<i32>(v);
    over::<i64>(v);
    over::<u128>(v);
    over::<bool>(v);
    over::<char>(v);
    over::<String>(v);
    over::<()>(v);
    over::<Vec<u16>>(v);
    over::<(u8, String)>(v);
    over::<BTreeMap<String, u8>>(v);
    over::<BTreeMap<u8, BTreeSet<i8>>>(v);
    both!(v; u8, Option<u8>, (u8,), (u8, u8), BTreeMap<u8, u8>, BTreeSet<u8>, Option<Option<u8>>, [u16; 0], [u16; 24], Vec<Vec<Vec<u16>>>);
    both!(v; (u8, u8, i64, u8, u8), (u8, i8, u16, i16, u32, i32, u64, i64, bool, String), ((u8, u8), (i8, String)), (Option<u8>, Option<u8>), ((), ()));
    only!(v; Vec<u8>, [u8; 2], [u8; 0], [u8; 32], serde_bytes::ByteBuf, Vec<serde_bytes::ByteBuf>, BTreeMap<Vec<u8>, serde_bytes::ByteBuf>, Option<Vec<u8>>, BTreeMap<serde_bytes::ByteBuf, Vec<u8>>, (Vec<u8>, [u8; 2]));
    v.push(sops::<Wide>("i128"));
    v.push(sops::<Option<Wide>>("Option<i128>"));
    v.push(sops::<Vec<Wide>>("Vec<i128>"));
    v.push(sops::<(u8, Wide)>("(u8,i128)"));
    crate::serde_types::shared(v);
    crate::serde_types::only(v);
    let mut seen = HashSet::new();
    list.retain(|o| seen.insert(o.name.clone()));
    list
}

pub struct SReg {
    pub list: Vec<SOps>,
    index: HashMap<String, usize>,
}
impl SReg {
    pub fn get(&self, name: &str) -> &SOps {
        &self.list[*self.index.get(name).unwrap_or_else(|| panic!("no type {name}"))]
    }
}
pub fn sreg() -> &'static SReg {
    static R: std::sync::OnceLock<SReg> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        let list = types();
        let index = list.iter().enumerate().map(|(i, o)| (o.name.clone(), i)).collect();
        SReg { list, index }
    })
}

/// Whether the iteration order of a hashed set shows in the encoding.
pub fn hashed(ty: &Ty) -> bool {
    match ty {
        Ty::Set(_, true) => true,
        Ty::Set(t, _) | Ty::Seq(t) | Ty::Arr(t, _) | Ty::Opt(t) => hashed(t),
        Ty::Tuple(ts) => ts.iter().any(hashed),
        Ty::Map(k, v) => hashed(k) || hashed(v),
        Ty::Struct(s) => s.fields.iter().any(|f| hashed(&f.ty)),
        Ty::Enum(e) => e.variants.iter().any(|v| v.fields.iter().any(|f| hashed(&f.ty))),
        _ => false,
    }
}

