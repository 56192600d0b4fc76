//! The standard types under test.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use oasis_cbor::Value;

use crate::checks::Reg;
use crate::subj::*;

/// Type name without module paths.
pub fn short<T>() -> String {
    let mut out = String::new();
    let mut word = String::new();
    for c in std::any::type_name::<T>().chars() {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else if c == ':' {
            word.clear();
        } else {
            out.push_str(&word);
            word.clear();
            if c != ' ' {
                out.push(c);
            }
        }
    }
    out + &word
}

macro_rules! add {
    ($v:ident; $($t:ty),* $(,)?) => {$( $v.push(ops::<$t>(short::<$t>())); )*};
}
macro_rules! maps {
    ($v:ident; $($t:ty),* $(,)?) => {$( $v.push(ops::<$t>(short::<$t>()).map::<$t>()); )*};
}

fn over<T: Subj + oasis_cbor::Encode + oasis_cbor::Decode>(v: &mut Vec<Ops>) {
    add!(v; Option<T>, [T; 1], [T; 3], (T,), (T, u8), (i16, T));
    add!(v; Option<Vec<T>>, Vec<Option<T>>, Vec<(T, bool)>);
    maps!(v; BTreeMap<u8, T>, HashMap<String, T>);
}
fn over_vec<T: Subj + oasis_cbor::Encode + oasis_cbor::Decode>(v: &mut Vec<Ops>) {
    add!(v; Vec<T>);
}
fn over_ord<T: Subj + oasis_cbor::Encode + oasis_cbor::Decode + Ord>(v: &mut Vec<Ops>) {
    add!(v; BTreeSet<T>);
    maps!(v; BTreeMap<T, i8>);
}
fn over_hash<T: Subj + oasis_cbor::Encode + oasis_cbor::Decode + Eq + std::hash::Hash>(v: &mut Vec<Ops>) {
    add!(v; HashSet<T>);
    maps!(v; HashMap<T, i8>);
}

macro_rules! over_all {
    ($v:ident; $($t:ty),*) => {$( add!($v; $t); over::<$t>($v); over_vec::<$t>($v); over_ord::<$t>($v); over_hash::<$t>($v); )*};
}

pub fn types() -> Vec<Ops> {
    let mut list = vec![];
    let v = &mut list;
    over_all!(v; u16, u32, u64, i8, i16, i32, i64, u128, bool, char, String, (), [u8; 2]);
    add!(v; u8, Vec<u8>, Value, [u8; 0], [u8; 1], [u8; 16], [u8; 32], Vec<Value>);
    over::<u8>(v);
    over_ord::<u8>(v);
    over_hash::<u8>(v);
    over::<Vec<u8>>(v);
    over_vec::<Vec<u8>>(v);
    over_ord::<Vec<u8>>(v);
    over_hash::<Vec<u8>>(v);
    over::<Value>(v);
    over_ord::<Value>(v);
    add!(v; [u16; 0], [u16; 24], [[u8; 2]; 2], [[u16; 2]; 2], Vec<[u8; 2]>, Vec<Vec<Vec<u16>>>, [Vec<u8>; 2], [Option<u8>; 2], [String; 2]);
    add!(v; Option<Option<u8>>, Option<(u8, Option<String>)>, Vec<Vec<Option<u8>>>);
    add!(v; BTreeSet<(u8, String)>, BTreeSet<Option<u8>>, BTreeSet<Vec<u16>>, BTreeSet<BTreeSet<u8>>, HashSet<(u8, String)>, HashSet<BTreeSet<i8>>, HashSet<BTreeMap<String, u8>>, HashSet<Option<u16>>, HashSet<Vec<String>>);
    maps!(v; BTreeMap<BTreeMap<u8, u8>, u8>, BTreeMap<String, BTreeMap<i8, String>>, BTreeMap<(u8, i8), Vec<u8>>, BTreeMap<Vec<u16>, u8>, BTreeMap<BTreeMap<String, u8>, ()>, BTreeMap<Option<u8>, u8>);
    maps!(v; HashMap<BTreeMap<String, u8>, u8>, HashMap<(u8, String), Option<u8>>, HashMap<u64, HashMap<String, Vec<u8>>>, HashMap<String, HashSet<i16>>, HashMap<String, Value>);
    add!(v; (u8, u16, u32), (i8, i16, i32, i64), (bool, char, String, Vec<u8>, u128), (u8, i8, bool, String, (), Option<u8>));
    add!(v; (u8, u8, u8, u8, u8, u8, u8), (u8, String, u8, bool, u8, i8, u8, char), (u8, u8, i64, u8, u8, u8, u8, u8, String), (u8, i8, u16, i16, u32, i32, u64, i64, bool, String));
    add!(v; ((u8, u8), (i8, String)), (Vec<(u8, u8)>, BTreeMap<u8, u8>), ((),), ((), ()), (Option<u8>, Option<u8>), ([u8; 2], [u16; 2]), (Vec<u8>, Vec<u16>));
    let mut seen = HashSet::new();
    list.retain(|o| seen.insert(o.name.clone()));
    list
}

pub fn reg() -> &'static Reg {
    static R: std::sync::OnceLock<Reg> = std::sync::OnceLock::new();
    R.get_or_init(|| Reg::new(types()))
}
