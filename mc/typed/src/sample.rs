//! A few derived types of every layout.
use std::collections::{BTreeMap, HashMap, HashSet};

use oasis_cbor::{Decode, DecodeError, Encode, Value};

#[derive(Clone, Debug, Default, PartialEq, Encode, Decode)]
pub struct Named {
    pub a: u8,
    #[cbor(optional)]
    pub b: Option<String>,
    #[cbor(rename = "zz")]
    pub c: Vec<u8>,
    #[cbor(rename = 7, optional)]
    pub d: u64,
    #[cbor(skip)]
    pub e: u32,
}

#[derive(Clone, Debug, Default, PartialEq, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct Loose {
    #[cbor(optional)]
    pub a: u8,
    pub n: Named,
    #[cbor(optional)]
    pub v: Value0,
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[cbor(transparent)]
pub struct Value0(pub Value);
impl Default for Value0 {
    fn default() -> Self {
        Value0(Value::Simple(oasis_cbor::SimpleValue::NullValue))
    }
}

#[derive(Clone, Debug, Default, PartialEq, Encode, Decode)]
#[cbor(as_array)]
pub struct Arr {
    pub a: i16,
    pub b: (bool, char),
    #[cbor(skip)]
    pub c: u8,
    pub d: Option<[u8; 2]>,
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[cbor(no_default)]
pub struct Pair(pub u128, pub Vec<Named>);

#[derive(Clone, Debug, Default, PartialEq, Encode, Decode)]
pub struct Nothing;

fn ser(x: &u16) -> String {
    x.to_string()
}
fn de(s: String) -> Result<u16, DecodeError> {
    s.parse().map_err(|_| DecodeError::UnexpectedType)
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[cbor(no_default)]
pub struct Mixed {
    #[cbor(serialize_with = "ser", deserialize_with = "de")]
    pub s: u16,
    pub m: BTreeMap<String, Plain>,
    pub p: Plain,
    #[cbor(optional)]
    pub nothing: Nothing,
    pub arr: Vec<Arr>,
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub enum Plain {
    One,
    #[cbor(rename = "zwei")]
    Two,
    #[cbor(rename = 3)]
    Three,
    New(u8),
    #[cbor(rename = 9)]
    Tup(u8, String),
    Rec {
        x: u8,
        #[cbor(optional)]
        y: Option<i8>,
    },
    #[cbor(as_array)]
    RecArr { x: u8, y: bool },
    #[cbor(as_struct)]
    UnitStruct,
    #[cbor(skip)]
    Skipped(u8),
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub enum Numbered {
    A = 1,
    B = 30,
    C = 500,
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub enum Outer {
    Own(Named),
    Unit,
    #[cbor(embed)]
    Inner(Plain),
    #[cbor(embed)]
    Tagged(Tagged),
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[cbor(tag = "v")]
pub enum Tagged {
    #[cbor(rename = 1)]
    V1(Named),
    #[cbor(rename = 2)]
    V2 { a: u8 },
    #[cbor(rename = "two")]
    V3,
    #[cbor(missing)]
    V0 { a: u8, q: Vec<u8> },
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Encode, Decode)]
pub struct Hashed {
    pub m: HashMap<String, u8>,
    #[cbor(optional)]
    pub s: HashSet<u16>,
}
impl std::hash::Hash for Hashed {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        let mut k: Vec<_> = self.m.keys().collect();
        k.sort();
        k.hash(h);
    }
}

/// A long chain of types, deeper than the decoder's limit would allow to be filled.
#[derive(Clone, Debug, Default, PartialEq, Encode, Decode)]
#[cbor(transparent)]
pub struct Wrap<T>(pub T)
where
    T: Encode + Decode + Default;

#[derive(Clone, Debug, Default, PartialEq, Encode, Decode)]
pub struct Rec {
    pub n: u8,
    #[cbor(optional)]
    pub next: Vec<Rec>,
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub enum RecE {
    Leaf,
    Node(Box2),
    Many { l: Vec<RecE> },
}
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[cbor(no_default)]
pub struct Box2(pub Vec<RecE>);

/// Same names, for serde.
pub mod sd {
    use serde::{Deserialize, Serialize};
    use std::collections::BTreeMap;

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct Named {
        pub a: u8,
        pub b: Option<String>,
        pub zz: Vec<u8>,
        #[serde(default)]
        pub d: u64,
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub enum Plain {
        One,
        New(u8),
        Tup(u8, String),
        Rec { x: u8, y: Option<i8> },
        Sub(Named),
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    #[serde(tag = "t", content = "c")]
    pub enum Adj {
        A,
        B(u8),
        C { x: i64 },
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    #[serde(untagged)]
    pub enum Un {
        N(i64),
        S(String),
        L(Vec<u8>),
        M(BTreeMap<String, u8>),
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct Tup(pub u128, pub char, pub i64);
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct Unit;
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct New(pub Vec<Plain>);
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct Rec {
        pub n: u8,
        #[serde(default)]
        pub next: Vec<Rec>,
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct Flat {
        pub a: u8,
        #[serde(flatten)]
        pub rest: BTreeMap<String, i64>,
    }
}
