//! C11: equal values encode to identical bytes, unequal ones to different bytes.
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;

use mccore::explore::{step, Ctx, Prop};
use mccore::model::*;
use mccore::valgen::permutations;
use oasis_cbor::{Encode, Value};

use super::eng;
use mctyped::checks::Out;
use mctyped::dom::*;
use mctyped::sample::{Hashed, Loose, Named, Value0};
use mctyped::schema::*;
use mctyped::std_types::reg;

pub fn c11() -> Prop {
    Prop { id: "C11", engines: vec![eng("orders", orders), eng("forms", forms), eng("injective", injective), eng("repeat", repeat)], explore }
}

/// A hasher state with chosen keys.
fn seeded(a: u64, b: u64) -> RandomState {
    assert_eq!(std::mem::size_of::<RandomState>(), 16);
    unsafe { std::mem::transmute([a, b]) }
}

const FACT: [usize; 6] = [1, 1, 2, 6, 24, 120];

/// One hash map per iteration order, found by running through hash seeds, insertion orders and
/// capacities.
fn all_maps<K: Clone + Eq + Hash + Debug, V: Clone>(es: &[(K, V)], all: bool) -> Result<Vec<HashMap<K, V>>, String> {
    let mut seen: Vec<Vec<usize>> = vec![];
    let mut out = vec![];
    let perms = permutations(es.len());
    for seed in 0..4000u64 {
        let p = &perms[seed as usize % perms.len()];
        let cap = [0, 1, 8, 64][(seed / 3) as usize % 4];
        let mut m = HashMap::with_capacity_and_hasher(cap, seeded(seed, seed.wrapping_mul(0x9e3779b97f4a7c15)));
        for i in p {
            m.insert(es[*i].0.clone(), es[*i].1.clone());
        }
        let order: Vec<usize> = m.keys().map(|k| es.iter().position(|e| e.0 == *k).unwrap()).collect();
        if !seen.contains(&order) {
            seen.push(order);
            out.push(m);
        }
        if out.len() == FACT[es.len()] || (!all && out.len() >= 6) {
            return Ok(out);
        }
    }
    Err(format!("MODEL: {} iteration orders of {es:?} not reached", FACT[es.len()] - out.len(), es = es.iter().map(|e| &e.0).collect::<Vec<_>>()))
}
fn all_sets<K: Clone + Eq + Hash + Debug>(es: &[K], all: bool) -> Result<Vec<HashSet<K>>, String> {
    let mut out = vec![];
    let mut seen: Vec<Vec<usize>> = vec![];
    let perms = permutations(es.len());
    for seed in 0..4000u64 {
        let p = &perms[seed as usize % perms.len()];
        let cap = [0, 1, 8, 64][(seed / 3) as usize % 4];
        let mut m = HashSet::with_capacity_and_hasher(cap, seeded(seed, seed.wrapping_mul(0x9e3779b97f4a7c15)));
        for i in p {
            m.insert(es[*i].clone());
        }
        let order: Vec<usize> = m.iter().map(|k| es.iter().position(|e| e == k).unwrap()).collect();
        if !seen.contains(&order) {
            seen.push(order);
            out.push(m);
        }
        if out.len() == FACT[es.len()] || (!all && out.len() >= 6) {
            return Ok(out);
        }
    }
    Err(format!("MODEL: iteration orders of {es:?} not reached"))
}

/// All the given equal values encode alike.
fn same<T: Encode>(vs: impl IntoIterator<Item = T>, first: &mut Option<Vec<u8>>) -> Result<usize, String> {
    let mut n = 0;
    for v in vs {
        n += 1;
        step(1);
        let b = oasis_cbor::to_vec(v);
        match first {
            None => *first = Some(b),
            Some(f) if *f == b => {}
            Some(f) => return Err(format!("equal values encode to {} and {}", hex(f), hex(&b))),
        }
    }
    Ok(n)
}

fn set_orders<T: Clone + Eq + Hash + Ord + Debug + Encode>(es: &[T]) -> Result<(), String> {
    let sets = all_sets(es, true)?;
    same(sets.clone(), &mut None)?;
    // In an option, a vector, a map value, a struct-like tuple.
    same(sets.iter().map(|s| vec![Some(s.clone()), None]), &mut None)?;
    same(sets.iter().map(|s| BTreeMap::from([(1u8, s.clone())])), &mut None)?;
    same(sets.iter().map(|s| (1u8, s.clone())), &mut None)?;
    same(sets.iter().map(|s| BTreeMap::from([("k", s.clone())]).into_iter().map(|(k, v)| (k.to_string(), v)).collect::<BTreeMap<_, _>>()), &mut None)?;
    same(permutations(es.len()).into_iter().map(|p| p.into_iter().map(|i| es[i].clone()).collect::<BTreeSet<T>>()), &mut None)?;
    // Elements removed again.
    let mut big = sets.clone();
    for s in &mut big {
        let have: Vec<T> = s.iter().cloned().collect();
        s.reserve(100);
        for x in &have {
            s.remove(x);
            s.insert(x.clone());
        }
    }
    let mut f = Some(oasis_cbor::to_vec(sets[0].clone()));
    same(big, &mut f)?;
    Ok(())
}

fn map_orders<T: Clone + Eq + Hash + Ord + Debug + Encode>(es: &[T]) -> Result<(), String> {
    let es: Vec<(T, u8)> = es.iter().cloned().zip(1..).collect();
    let maps = all_maps(&es, true)?;
    let mut f = None;
    same(maps.clone(), &mut f)?;
    same(permutations(es.len()).into_iter().map(|p| p.into_iter().map(|i| es[i].clone()).collect::<BTreeMap<T, u8>>()), &mut f)?;
    same(maps.iter().map(|m| vec![m.clone()]), &mut None)?;
    same(maps.iter().map(|m| HashMap::<u8, _>::from([(3, m.clone())])), &mut None)?;
    // Through the generic value, with the entries in the order of the map.
    same(maps.iter().map(|m| Value::Map(m.iter().map(|(k, v)| (k.clone().into_cbor_value(), Value::Unsigned(*v as u64))).collect())), &mut f)?;
    Ok(())
}

/// Values holding hashed collections inside hashed collections.
fn nested_orders(k: usize, es: &[u16]) -> Result<(), String> {
    let names = ["", "a", "b", "aa", "zz"];
    let es = &es[..es.len().min(3)];
    match k {
        0 => {
            // map of sets
            let inner = all_sets(es, true)?;
            let mut f = None;
            for i in &inner {
                let entries: Vec<(String, HashSet<u16>)> = names.iter().take(3).map(|n| (n.to_string(), i.clone())).collect();
                same(all_maps(&entries, true)?, &mut f)?;
            }
        }
        1 => {
            // map of maps, with different inner orders side by side
            let pairs: Vec<(u16, i8)> = es.iter().cloned().zip(-1..).collect();
            let inner = all_maps(&pairs, true)?;
            let mut f = None;
            for a in &inner {
                for b in &inner {
                    same(all_maps(&[(5u64, a.clone()), (500, b.clone())], true)?, &mut f)?;
                }
            }
        }
        2 => {
            // set of ordered maps, as elements
            let elems: Vec<BTreeMap<String, u16>> = es.iter().map(|e| BTreeMap::from([("x".to_string(), *e), ("y".to_string(), 1)])).collect();
            same(all_sets(&elems, true)?, &mut None)?;
            same(all_maps(&elems.iter().map(|e| (e.clone(), 1u8)).collect::<Vec<_>>(), true)?, &mut None)?;
        }
        3 => {
            // a derived struct with hashed fields, and a set of those
            let entries: Vec<(String, u8)> = es.iter().enumerate().map(|(i, e)| (names[i + 1].to_string(), *e as u8)).collect();
            let (ms, ss) = (all_maps(&entries, true)?, all_sets(es, true)?);
            let mut f = None;
            let mut all = vec![];
            for m in &ms {
                for s in &ss {
                    all.push(Hashed { m: m.clone(), s: s.clone() });
                }
            }
            same(all.iter().cloned(), &mut f)?;
            same(all.iter().map(|h| vec![h.clone(), h.clone()]), &mut None)?;
            same(all.iter().map(|h| (h.m.clone(), h.s.clone(), 1u8)), &mut None)?;
            // Same elements, whatever the inner iteration order.
            let mut f = None;
            for a in &all {
                let elems = vec![
                    a.clone(),
                    Hashed { m: HashMap::from([("q".to_string(), 1)]), s: a.s.clone() },
                    Hashed { m: a.m.clone(), s: HashSet::from([9999, 1]) },
                ];
                same(all_sets(&elems, false)?, &mut f)?;
            }
            let mut f = None;
            for a in &all {
                let keys = [(a.clone(), 1u8), (Hashed { m: HashMap::from([("q".to_string(), 1)]), s: a.s.clone() }, 2)];
                same(all_maps(&keys, true)?, &mut f)?;
            }
        }
        4 => {
            // generic values holding maps with entries in any order
            let perms = permutations(es.len());
            let vals: Vec<Value> = perms
                .iter()
                .map(|p| Value::Map(p.iter().map(|i| (Value::Unsigned(es[*i] as u64), Value::Negative(-1))).collect()))
                .collect();
            same(vals.iter().cloned(), &mut None)?;
            same(vals.iter().map(|v| Loose { a: 1, n: Named::default(), v: Value0(v.clone()) }), &mut None)?;
            same(vals.iter().map(|v| BTreeMap::from([(v.clone(), 1u8), (Value::Unsigned(3), 2)])), &mut None)?;
            same(vals.iter().map(|v| vec![v.clone()]), &mut None)?;
            same(vals.iter().map(|v| Value::Tag(9, Box::new(v.clone()))), &mut None)?;
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn orders(arg: &str, b: &[u8]) -> Out {
    let d = bytes_d(b);
    let n = d.seq().len();
    macro_rules! on {
        ($($n:literal: $t:ty),*) => {
            match arg {
                $(concat!("set ", $n) => {
                    let es: Vec<$t> = d.seq().iter().map(<$t as mctyped::subj::Subj>::from_d).collect();
                    set_orders(&es)?
                }
                concat!("map ", $n) => {
                    let es: Vec<$t> = d.seq().iter().map(<$t as mctyped::subj::Subj>::from_d).collect();
                    map_orders(&es)?
                })*
                _ => {
                    let k: usize = arg.strip_prefix("nested ").expect("arg").parse().unwrap();
                    let es: Vec<u16> = d.seq().iter().map(<u16 as mctyped::subj::Subj>::from_d).collect();
                    nested_orders(k, &es)?
                }
            }
        };
    }
    on!("u8": u8, "u64": u64, "i16": i16, "i64": i64, "u128": u128, "bool": bool, "char": char, "String": String, "Bytes": Vec<u8>, "VecU16": Vec<u16>, "Pair": (u8, String), "OptU16": Option<u16>, "Arr": [u8; 2], "Set": BTreeSet<i8>, "Map": BTreeMap<String, u8>);
    Ok(match n {
        0 | 1 => "one order",
        2 => "2 orders",
        3 => "6 orders",
        _ => "24 orders or more",
    })
}
const ELEMS: [&str; 15] = ["u8", "u64", "i16", "i64", "u128", "bool", "char", "String", "Bytes", "VecU16", "Pair", "OptU16", "Arr", "Set", "Map"];

fn elem_ty(n: &str) -> Ty {
    use mctyped::subj::Subj;
    match n {
        "u8" => u8::ty(),
        "u64" => u64::ty(),
        "i16" => i16::ty(),
        "i64" => i64::ty(),
        "u128" => u128::ty(),
        "bool" => bool::ty(),
        "char" => char::ty(),
        "String" => String::ty(),
        "Bytes" => Vec::<u8>::ty(),
        "VecU16" => Vec::<u16>::ty(),
        "Pair" => <(u8, String)>::ty(),
        "OptU16" => Option::<u16>::ty(),
        "Arr" => <[u8; 2]>::ty(),
        "Set" => BTreeSet::<i8>::ty(),
        "Map" => BTreeMap::<String, u8>::ty(),
        _ => panic!(),
    }
}

/// Owned and borrowed forms.
fn forms(arg: &str, b: &[u8]) -> Out {
    let d = bytes_d(b);
    macro_rules! on {
        ($($t:ident),*) => {
            match arg {
                $(stringify!($t) => {
                    let x = <$t as mctyped::subj::Subj>::from_d(&d);
                    let want = oasis_cbor::to_vec(x);
                    let mut f = Some(want);
                    same([&x], &mut f)?;
                    same([Some(&x)], &mut f)?;
                    same([Some(x)], &mut f)?;
                    let mut f = Some(oasis_cbor::to_vec(Value::Array(vec![oasis_cbor::to_value(x)])));
                    same([(x,)], &mut f)?;
                    same([(&x,)], &mut f)?;
                    if stringify!($t) != "u8" {
                        same([vec![&x]], &mut f)?;
                        same([vec![x]], &mut f)?;
                        same([[x]], &mut f)?;
                    }
                    if Encode::is_empty(&x) != Encode::is_empty(&&x) {
                        return Err("is_empty differs between owned and borrowed".into());
                    }
                    if (&x).into_optional_cbor_value().is_none() != x.into_optional_cbor_value().is_none() {
                        return Err("optional encoding differs between owned and borrowed".into());
                    }
                })*
                "String" => {
                    let x = <String as mctyped::subj::Subj>::from_d(&d);
                    let mut f = Some(oasis_cbor::to_vec(x.clone()));
                    same([x.as_str()], &mut f)?;
                    let mut big = String::with_capacity(1000);
                    big.push_str(&x);
                    same([big], &mut f)?;
                    if Encode::is_empty(&x) != Encode::is_empty(&x.as_str()) {
                        return Err("is_empty differs between String and &str".into());
                    }
                }
                "Vec<u8>" => {
                    let x = <Vec<u8> as mctyped::subj::Subj>::from_d(&d);
                    let mut f = Some(oasis_cbor::to_vec(x.clone()));
                    let mut big = Vec::with_capacity(1000);
                    big.extend(&x);
                    same([big], &mut f)?;
                    if let Ok(a) = <[u8; 2]>::try_from(x.clone()) {
                        same([a], &mut f)?;
                    }
                    if let Ok(a) = <[u8; 16]>::try_from(x) {
                        same([a], &mut f)?;
                    }
                }
                _ => panic!(),
            }
        };
    }
    on!(u8, u16, u32, u64, i8, i16, i32, i64, u128);
    Ok("same bytes")
}

/// Different values of a type have different encodings.
fn injective(arg: &str, b: &[u8]) -> Out {
    let o = reg().get(arg);
    let n = u32::from_le_bytes(b.try_into().unwrap()) as usize;
    let mut seen: HashMap<Vec<u8>, D> = HashMap::new();
    let mut dropped = 0;
    for d in dom(&o.ty, n) {
        let d = (o.norm)(&d);
        if !lossless(&o.ty, &d, true) || enc(&o.ty, &d).enc().is_none() || enc(&o.ty, &d).depth() > 127 {
            dropped += 1;
            continue;
        }
        step(1);
        let c = if let D::Val(m) = &d { D::Val(m.canon()) } else { d.clone() };
        let b = (o.e().to_vec)(&d);
        if let Some(old) = seen.insert(b.clone(), c.clone()) {
            if old != c && enc(&o.ty, &old).canon() != enc(&o.ty, &c).canon() {
                return Err(format!("{} and {} both encode to {}", show_d(&old), show_d(&c), hex(&b)));
            }
        }
    }
    Ok(if dropped > 0 { "distinct (null-like contents left out)" } else { "distinct" })
}

/// Encoding again gives the same bytes (fresh hashed collections each time).
fn repeat(arg: &str, b: &[u8]) -> Out {
    let o = reg().get(arg);
    let d = bytes_d(b);
    if enc(&o.ty, &d).enc().is_none() {
        return Ok("equal keys");
    }
    let first = (o.e().to_vec)(&d);
    for _ in 0..6 {
        step(1);
        let b = (o.e().to_vec)(&d);
        if b != first {
            return Err(format!("{} encodes to {} and {}", show_d(&d), hex(&first), hex(&b)));
        }
    }
    Ok("same bytes")
}

fn explore(ctx: &Ctx, p: &Prop) {
    let e = p.engine("orders");
    let max = if ctx.thorough { 5 } else { 4 };
    ctx.bound(format!("orders: sets and maps of up to {max} elements of {} types and 5 nestings of hashed collections: every iteration order (reached by running through hash seeds, insertion orders and capacities)", ELEMS.len()));
    let pool = if ctx.thorough { 9 } else { 7 };
    let mut work: Vec<(String, Vec<u8>)> = vec![];
    for t in ELEMS {
        let ds = dom(&elem_ty(t), pool);
        for mask in 0u32..1 << ds.len() {
            let n = mask.count_ones() as usize;
            if n > max || (n == max && mask % 3 != 0 && !ctx.thorough) {
                continue;
            }
            let es: Vec<D> = (0..ds.len()).filter(|i| mask >> i & 1 == 1).map(|i| ds[i].clone()).collect();
            for k in ["set", "map"] {
                work.push((format!("{k} {t}"), d_bytes(&D::Seq(es.clone()))));
            }
        }
    }
    let us = [0i128, 1, 23, 24, 255, 256, 65535];
    for k in 0..5 {
        for mask in 0u32..1 << us.len() {
            if mask.count_ones() <= 3 {
                let es: Vec<D> = (0..us.len()).filter(|i| mask >> i & 1 == 1).map(|i| D::Int(us[i])).collect();
                work.push((format!("nested {k}"), d_bytes(&D::Seq(es))));
            }
        }
    }
    ctx.par(work.len(), true, |w, i| w.case(&e, &work[i].0, &work[i].1));

    let e = p.engine("forms");
    let n = if ctx.thorough { 3000 } else { 500 };
    ctx.bound(format!("forms: up to {n} values of each integer type, u128, strings and bytes, owned and borrowed, in options, tuples and vectors"));
    let names = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128", "String", "Vec<u8>"];
    ctx.par(names.len(), true, |w, i| {
        for d in dom(&reg().get(names[i]).ty, n) {
            w.case(&e, names[i], &d_bytes(&d));
        }
    });

    let (e, er) = (p.engine("injective"), p.engine("repeat"));
    let reg = reg();
    let n: u32 = if ctx.thorough { 30000 } else { 3000 };
    ctx.bound(format!("injective, repeat: {} types, all pairs among up to {n} boundary values of each, and {} of them encoded repeatedly from fresh collections", reg.list.len(), n / 50));
    ctx.par(reg.list.len(), true, |w, i| {
        let o = &reg.list[i];
        w.case(&e, &o.name, &n.to_le_bytes());
        for d in dom(&o.ty, n as usize / 50) {
            w.case(&er, &o.name, &d_bytes(&d));
        }
    });
}
