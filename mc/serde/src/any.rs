//! Data items themselves as a serde type: nothing but what the format delivers.
use std::fmt;

use mccore::model::*;
use serde::de::{self, Deserialize, Deserializer, Visitor};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, Serializer};

#[derive(Debug, Clone, PartialEq)]
pub struct Any(pub M);

impl Serialize for Any {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        ser(&self.0, s)
    }
}

struct R<'a>(&'a M);
impl Serialize for R<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        ser(self.0, s)
    }
}

fn ser<S: Serializer>(m: &M, s: S) -> Result<S::Ok, S::Error> {
    match m {
        M::U(n) => s.serialize_u64(*n),
        M::N(n) => s.serialize_i64(-1 - *n as i64),
        M::B(b) => s.serialize_bytes(b),
        M::T(t) => s.serialize_str(t),
        M::A(a) => {
            // The length is only a hint.
            let mut q = s.serialize_seq(if a.len() % 2 == 0 { Some(a.len()) } else { None })?;
            for x in a {
                q.serialize_element(&R(x))?;
            }
            q.end()
        }
        M::Map(e) => {
            let mut q = s.serialize_map(if e.len() % 2 == 1 { Some(e.len()) } else { None })?;
            for (i, (k, v)) in e.iter().enumerate() {
                if i % 2 == 0 {
                    q.serialize_entry(&R(k), &R(v))?;
                } else {
                    q.serialize_key(&R(k))?;
                    q.serialize_value(&R(v))?;
                }
            }
            q.end()
        }
        M::S(20) => s.serialize_bool(false),
        M::S(21) => s.serialize_bool(true),
        M::S(_) => s.serialize_unit(),
        M::Tag(..) => panic!("serde has no tags"),
    }
}

/// Whether serde can describe the item and this layer tell it apart.
pub fn describable(m: &M) -> bool {
    match m {
        M::N(n) => *n <= i64::MAX as u64,
        M::A(a) => a.iter().all(describable),
        M::Map(e) => e.iter().all(|(k, v)| describable(k) && describable(v)),
        M::S(n) => *n != 23,
        M::Tag(..) => false,
        _ => true,
    }
}

/// What is delivered for an item, if it holds nothing unsupported.
pub fn delivered(m: &M) -> Option<M> {
    Some(match m {
        M::Tag(..) => return None,
        M::S(23) => NULL,
        M::A(a) => M::A(a.iter().map(delivered).collect::<Option<_>>()?),
        M::Map(e) => M::Map(e.iter().map(|(k, v)| Some((delivered(k)?, delivered(v)?))).collect::<Option<_>>()?),
        m => m.clone(),
    })
}

struct V;
impl<'de> Visitor<'de> for V {
    type Value = Any;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<Any, E> {
        Ok(Any(if v { TRUE } else { FALSE }))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Any, E> {
        Ok(Any(int(v as i128)))
    }
    fn visit_i128<E>(self, v: i128) -> Result<Any, E> {
        Ok(Any(int(v)))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Any, E> {
        Ok(Any(M::U(v)))
    }
    fn visit_u128<E>(self, v: u128) -> Result<Any, E> {
        Ok(Any(int(v as i128)))
    }
    fn visit_str<E>(self, v: &str) -> Result<Any, E> {
        Ok(Any(t(v)))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Any, E> {
        Ok(Any(M::B(v.to_vec())))
    }
    fn visit_none<E>(self) -> Result<Any, E> {
        Ok(Any(NULL))
    }
    fn visit_unit<E>(self) -> Result<Any, E> {
        Ok(Any(NULL))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
        d.deserialize_any(V)
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut v = vec![];
        while let Some(Any(x)) = a.next_element()? {
            v.push(x);
        }
        Ok(Any(M::A(v)))
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut v = vec![];
        loop {
            if v.len() % 2 == 0 {
                match a.next_entry::<Any, Any>()? {
                    Some((k, x)) => v.push((k.0, x.0)),
                    None => break,
                }
            } else {
                match a.next_key::<Any>()? {
                    Some(k) => {
                        let x: Any = a.next_value()?;
                        v.push((k.0, x.0));
                    }
                    None => break,
                }
            }
        }
        Ok(Any(M::Map(v)))
    }
}
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        d.deserialize_any(V)
    }
}
