//! C25: the serde entry points are parsing and conversion put together, and say which of them failed.
use std::cell::Cell;
use std::collections::BTreeMap;

use mccore::bytesgen::{self, Cfg};
use mccore::explore::{no_panic, Ctx, Prop};
use mccore::model::*;
use mccore::valgen::{self, space};
use mctyped::checks::Out;
use mctyped::dom::*;
use oasis_cbor::reader;
use oasis_cbor::serde as cs;
use oasis_cbor::writer::{self, EncoderError};
use serde::de::{self, Deserialize, DeserializeOwned, IgnoredAny};
use serde::ser::{self, Serialize};

use super::eng;
use crate::any::*;
use crate::serde_sem::*;
use crate::serde_subj::*;

pub fn prop() -> Prop {
    let mut e = vec![eng("types", types_case), eng("values", values_case), eng("deep", deep_case), eng("user errors", user_case)];
    e.extend(bytesgen::engines(bytes_case));
    e.extend(space::engines(any_case));
    Prop { id: "C25", engines: e, explore }
}

/// The outcome of decoding bytes against that of decoding the value they denote.
fn compose<T: PartialEq + std::fmt::Debug>(what: &str, b: &[u8], slice: Result<T, cs::Error>, value: impl FnOnce(oasis_cbor::Value) -> Result<T, cs::Error>) -> Out {
    match Dec::run(true, Some(64), b) {
        Err(want) => {
            if let Ok(v) = reader::read_nested(b, Some(64)) {
                return Err(format!("MODEL: {} is read as {v:.300?}", show_hex(b)));
            }
            match slice {
                Err(cs::Error::ByteDecoder(e)) if errs_names(want).split('|').any(|n| n == format!("{e:?}")) => Ok("parse error"),
                Err(e) => Err(format!("{what} of {} reports {e:.300?} instead of a parse error {}", show_hex(b), errs_names(want))),
                Ok(v) => Err(format!("{what} of {} gives {v:.300?} instead of a parse error {}", show_hex(b), errs_names(want))),
            }
        }
        Ok(m) => {
            let v = reader::read_nested(b, Some(64)).map_err(|e| format!("{} is not read: {e:?}", show(&m)))?;
            match (slice, value(v)) {
                (_, Err(e @ (cs::Error::ByteDecoder(_) | cs::Error::ByteEncoder(_)))) => Err(format!("{what} of the value {} reports {e}", show(&m))),
                (Err(e @ (cs::Error::ByteDecoder(_) | cs::Error::ByteEncoder(_))), _) => Err(format!("{what} of the encoding of {} reports {e}", show(&m))),
                (Ok(a), Ok(b)) if a == b => Ok("same value"),
                (Err(_), Err(_)) => Ok("same failure"),
                (a, b) => Err(format!("{what} of {}: {a:.300?} from bytes, {b:.300?} from the value", show(&m))),
            }
        }
    }
}

fn target<T: DeserializeOwned + PartialEq + std::fmt::Debug>(b: &[u8]) -> Out {
    compose(std::any::type_name::<T>(), b, cs::from_slice::<T>(b), cs::from_value::<T>)
}

#[derive(Debug, PartialEq, serde::Deserialize)]
struct Small {
    a: u8,
    #[serde(default)]
    b: Option<i64>,
}
#[derive(Debug, PartialEq, serde::Deserialize)]
enum Choice {
    A,
    B(bool),
    C { x: u8 },
}
#[derive(Debug, PartialEq, serde::Deserialize)]
#[serde(untagged)]
enum Either {
    N(i64),
    L(Vec<Either>),
    M(BTreeMap<String, Either>),
    S(Small),
}
/// Equal to itself, whatever it ignored.
#[derive(Debug, serde::Deserialize)]
struct Ignored(IgnoredAny);
impl PartialEq for Ignored {
    fn eq(&self, _: &Ignored) -> bool {
        true
    }
}

/// The same bytes into targets of every kind.
fn bytes_case(_: &str, b: &[u8]) -> Out {
    target::<u8>(b)?;
    target::<i64>(b)?;
    target::<bool>(b)?;
    target::<()>(b)?;
    target::<String>(b)?;
    target::<serde_bytes::ByteBuf>(b)?;
    target::<Vec<Any>>(b)?;
    target::<Option<Vec<u8>>>(b)?;
    target::<(u8, Any)>(b)?;
    target::<Small>(b)?;
    target::<Choice>(b)?;
    target::<Either>(b)?;
    target::<Ignored>(b)?;
    target::<Any>(b)
}

/// Bytes into one of the types of the registry.
fn types_case(arg: &str, b: &[u8]) -> Out {
    let o = sreg().get(arg);
    compose(arg, b, (o.slice)(b), o.value)
}

/// The outcome of encoding against the reference encoding.
fn encoded(what: &str, m: &M, r: Result<Vec<u8>, cs::Error>, value: Result<oasis_cbor::Value, cs::Error>, exact: bool) -> Out {
    let v = value.map_err(|e| format!("{what} is not converted to a value: {e}"))?;
    let mut composed = vec![];
    let c = writer::write(v, &mut composed);
    let depth = m.depth();
    match (m.enc().filter(|_| depth <= 127), r) {
        (Some(want), Ok(got)) => {
            if exact && got != want {
                return Err(format!("{what} encodes to {} instead of {}", show_hex(&got), show_hex(&want)));
            }
            if c.is_err() || composed != got {
                return Err(format!("{what} encodes to {} but its value to {}", show_hex(&got), show_hex(&composed)));
            }
            Ok("same bytes")
        }
        (Some(_), Err(e)) => Err(format!("{what} does not encode: {e}")),
        (None, Ok(got)) => Err(format!("{what} cannot be encoded but yields {}", show_hex(&got))),
        (None, Err(cs::Error::ByteEncoder(e))) => {
            let (dup, deep) = (m.enc().is_none(), depth > 127);
            match e {
                EncoderError::DuplicateMapKey if dup => Ok("refused: equal keys"),
                EncoderError::TooMuchNesting if deep => Ok("refused: nesting"),
                e => Err(format!("{what} of depth {depth} (equal keys: {dup}) is refused as {e:?}")),
            }
        }
        (None, Err(e)) => Err(format!("{what} of depth {depth} cannot be encoded but is refused as {e}")),
    }
}

fn any_case(_: &str, b: &[u8]) -> Out {
    let m = bytes_m(b);
    if !describable(&m) {
        return Ok("not describable");
    }
    let a = Any(m.clone());
    encoded(&show(&m), &m, no_panic(|| cs::to_vec(&a))?, no_panic(|| cs::to_value(&a))?, true)
}

/// Chains deeper than any limit.
fn deep_case(_: &str, b: &[u8]) -> Out {
    any_case("", b)?;
    bytes_case("", b)
}

fn values_case(arg: &str, b: &[u8]) -> Out {
    let o = sreg().get(arg);
    let d = (o.norm)(&bytes_d(b));
    let m = senc(&o.ty, &d);
    // Two conversions of a hashed set may differ in order.
    if hashed(&o.ty) {
        return Ok("hashed");
    }
    encoded(&format!("{} as {arg}", show_d(&d)), &m, (o.vec)(&d), (o.to_value)(&d).map_err(cs::Error::Other), true)
}

thread_local! {
    static COUNT: Cell<usize> = const { Cell::new(0) };
}
const MESSAGE: &str = "the user's own \u{e9}rror";

/// Counts down; the user's code fails at zero.
fn tick() -> bool {
    COUNT.with(|c| {
        let n = c.get();
        c.set(n.wrapping_sub(1));
        n == 0
    })
}

/// A data item whose own code fails at one of its nodes.
struct Failing<'a>(&'a M);
impl Serialize for Failing<'_> {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::{SerializeMap, SerializeSeq};
        if tick() {
            return Err(ser::Error::custom(MESSAGE));
        }
        match self.0 {
            M::A(a) => {
                let mut q = s.serialize_seq(Some(a.len()))?;
                for x in a {
                    q.serialize_element(&Failing(x))?;
                }
                q.end()
            }
            M::Map(e) => {
                let mut q = s.serialize_map(None)?;
                for (k, v) in e {
                    q.serialize_key(&Failing(k))?;
                    q.serialize_value(&Failing(v))?;
                }
                q.end()
            }
            M::Tag(_, m) => s.serialize_newtype_variant("Variant", 0, "v", &Failing(m)),
            m => Any(m.clone()).serialize(s),
        }
    }
}

/// What `Failing` encodes to.
fn variants(m: &M) -> M {
    match m {
        M::A(a) => M::A(a.iter().map(variants).collect()),
        M::Map(e) => M::Map(e.iter().map(|(k, v)| (variants(k), variants(v))).collect()),
        M::Tag(_, m) => M::Map(vec![(t("v"), variants(m))]),
        m => m.clone(),
    }
}

/// Decodes anything, failing at one of its nodes.
#[derive(Debug, PartialEq)]
struct Picky;
impl<'de> Deserialize<'de> for Picky {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Picky, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Picky;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_bool<E>(self, _: bool) -> Result<Picky, E> {
                Ok(Picky)
            }
            fn visit_u64<E>(self, _: u64) -> Result<Picky, E> {
                Ok(Picky)
            }
            fn visit_i64<E>(self, _: i64) -> Result<Picky, E> {
                Ok(Picky)
            }
            fn visit_i128<E>(self, _: i128) -> Result<Picky, E> {
                Ok(Picky)
            }
            fn visit_str<E>(self, _: &str) -> Result<Picky, E> {
                Ok(Picky)
            }
            fn visit_bytes<E>(self, _: &[u8]) -> Result<Picky, E> {
                Ok(Picky)
            }
            fn visit_unit<E>(self) -> Result<Picky, E> {
                Ok(Picky)
            }
            fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Picky, A::Error> {
                while a.next_element::<Picky>()?.is_some() {}
                Ok(Picky)
            }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Picky, A::Error> {
                while a.next_entry::<Picky, Picky>()?.is_some() {}
                Ok(Picky)
            }
        }
        if tick() {
            return Err(de::Error::custom(MESSAGE));
        }
        d.deserialize_any(V)
    }
}

fn nodes(m: &M) -> usize {
    1 + match m {
        M::A(a) => a.iter().map(nodes).sum(),
        M::Map(e) => e.iter().map(|(k, v)| nodes(k) + nodes(v)).sum(),
        M::Tag(_, m) => nodes(m),
        _ => 0,
    }
}

fn expect<T: std::fmt::Debug>(what: &str, r: Result<T, String>, fails: bool) -> Result<(), String> {
    match r {
        Ok(_) if !fails => Ok(()),
        Err(e) if fails && e.contains(MESSAGE) => Ok(()),
        r => Err(format!("{what}: {r:.300?}, a node of it failing: {fails}")),
    }
}

/// An error of the user's own code, at every node in turn.
fn user_case(_: &str, b: &[u8]) -> Out {
    let m = bytes_m(b);
    if !describable(&variants(&m)) {
        return Ok("not describable");
    }
    let n = nodes(&m);
    for k in 0..=n {
        let start = || COUNT.with(|c| c.set(k));
        let fails = k < n;
        start();
        let v = no_panic(|| cs::to_value(&Failing(&m)))?.map_err(|e| e.to_string());
        expect(&format!("to_value of {}", show(&m)), v, fails)?;
        start();
        match (no_panic(|| cs::to_vec(&Failing(&m)))?, fails) {
            (Err(e), true) if e.to_string().contains(MESSAGE) => {}
            (Ok(b), false) if Some(&b) == variants(&m).enc().as_ref() => {}
            (Err(cs::Error::ByteEncoder(EncoderError::DuplicateMapKey)), false) if variants(&m).enc().is_none() => {}
            (r, _) => return Err(format!("to_vec of {}: {r:?}, a node of it failing: {fails}", show(&m))),
        }
        if describable(&m) {
            start();
            let r = no_panic(|| cs::from_value::<Picky>(to_value(&m)))?.map_err(|e| e.to_string());
            expect(&format!("from_value of {}", show(&m)), r, fails)?;
            if let Some(b) = m.enc() {
                start();
                let r = no_panic(|| cs::from_slice::<Picky>(&b))?.map_err(|e| e.to_string());
                expect(&format!("from_slice of {}", show(&m)), r, fails)?;
            }
        }
    }
    Ok("every node")
}

fn explore(ctx: &Ctx, p: &Prop) {
    let reg = sreg();
    let e = p.engine("types");
    let n = if ctx.thorough { 30 } else { 5 };
    ctx.bound(format!("types: {} types; encodings of {n} values of each, everything one edit away, and of each of these every prefix, every byte set to each of its eight one-bit neighbours, and one more byte after it", reg.list.len()));
    ctx.par(reg.list.len(), true, |w, i| {
        let o = &reg.list[i];
        let mut keys = vec![];
        type_keys(&o.ty, &mut keys);
        keys.sort();
        keys.dedup();
        let mut all = vec![];
        for (j, d) in dom(&o.ty, n).iter().enumerate() {
            let m = senc(&o.ty, &(o.norm)(d));
            all.push((m.canon().enc_raw(), true));
            if j < n / 2 {
                all.extend(edits(&m, &keys).iter().map(|x| (x.canon().enc_raw(), false)));
            }
        }
        for (b, wide) in all {
            w.case(&e, &o.name, &b);
            if !wide && !w.ctx.thorough {
                continue;
            }
            for k in bytesgen::positions(b.len(), 40) {
                w.case(&e, &o.name, &b[..k.min(b.len())]);
                for bit in 0..8 {
                    let mut x = b.clone();
                    if let Some(y) = x.get_mut(k) {
                        *y ^= 1 << bit;
                        w.case(&e, &o.name, &x);
                    }
                }
            }
            w.case(&e, &o.name, &[&b[..], &[0]].concat());
        }
    });
    let e = p.engine("values");
    let n = if ctx.thorough { 5000 } else { 300 };
    ctx.bound(format!("values: up to {n} boundary values of each of these types, those with equal keys included"));
    ctx.par(reg.list.len(), true, |w, i| {
        let o = &reg.list[i];
        if decode_only(&o.name) {
            return;
        }
        for d in dom(&o.ty, n) {
            w.case(&e, &o.name, &d_bytes(&d));
        }
    });
    let e = p.engine("deep");
    let pairs: Vec<[valgen::Step; 2]> = valgen::STEPS.iter().flat_map(|a| valgen::STEPS.iter().map(move |b| [*a, *b])).collect();
    ctx.bound(format!("deep: chains of depth 1 to 70 and 120 to 140 alternating each of {} pairs of steps, around a scalar, a duplicate and an unsupported item", pairs.len()));
    ctx.par(pairs.len(), true, |w, i| {
        for depth in (1..=70).chain(120..=140) {
            let steps: Vec<valgen::Step> = (0..depth).map(|k| pairs[i][k % 2]).collect();
            for inner in [M::U(0), M::Map(vec![(M::U(0), M::U(0)), (M::U(0), M::U(1))]), tag(1, M::U(0))] {
                w.case(&e, "", &valgen::nest(&steps, inner).enc_raw());
            }
        }
    });
    let e = p.engine("user errors");
    let n = if ctx.thorough { 6 } else { 5 };
    let ms = valgen::trees(n, &valgen::small_leaves()[..4], &[1]);
    ctx.bound(format!("user errors: all {} trees of up to {n} nodes over 4 leaves, arrays, maps and variants, the user's code failing at each node in turn, encoding and decoding", ms.len()));
    ctx.par(ms.len().div_ceil(256), true, |w, i| {
        for m in &ms[i * 256..(i * 256 + 256).min(ms.len())] {
            w.case(&e, "", &m.enc_raw());
        }
    });
    space::explore(ctx, &p.engines);
    let cfg = if ctx.thorough {
        Cfg { full: 3, pruned: 0, alpha: 7, utf8_full: true, arg8: 5, arg4: 8, arg2_full: true, mutate_nodes: 5, ctx_depth: 4, big: true, places: 1 }
    } else {
        Cfg { full: 2, pruned: 3, alpha: 5, utf8_full: false, arg8: 3, arg4: 4, arg2_full: false, mutate_nodes: 4, ctx_depth: 3, big: false, places: 0 }
    };
    bytesgen::explore(ctx, &p.engines, cfg);
}
