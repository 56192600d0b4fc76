//! C04: no crash, hang or excessive memory. C23: typed entry points as compositions.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;

use mccore::alloc::peak_of;
use mccore::bytesgen::{self, Cfg};
use mccore::explore::{no_panic, step, Ctx, Prop};
use mccore::model::*;
use mccore::valgen;
use oasis_cbor::{reader, writer, Decode, DecodeError, Encode, Value};
use serde::de::DeserializeOwned;

use super::eng;
use mctyped::checks::Out;
use mctyped::dom::*;
use mctyped::sample::{self, sd};
use mctyped::schema::enc;
use mctyped::std_types::reg;

type Entry = (&'static str, fn(&[u8]));

macro_rules! native {
    ($v:ident; $($t:ty),* $(,)?) => {$(
        $v.push((concat!("strict ", stringify!($t)), |b: &[u8]| drop(oasis_cbor::from_slice::<$t>(b))));
        $v.push((concat!("lenient ", stringify!($t)), |b: &[u8]| drop(oasis_cbor::from_slice_non_strict::<$t>(b))));
    )*};
}
macro_rules! serded {
    ($v:ident; $($t:ty),* $(,)?) => {$(
        $v.push((concat!("serde ", stringify!($t)), |b: &[u8]| drop(oasis_cbor::serde::from_slice::<$t>(b))));
    )*};
}

fn entries() -> &'static [Entry] {
    static E: std::sync::OnceLock<Vec<Entry>> = std::sync::OnceLock::new();
    E.get_or_init(|| {
        let mut v: Vec<Entry> = vec![
            ("strict value", |b| drop(reader::read(b))),
            ("lenient value", |b| drop(reader::read_nested_non_strict(b, Some(127)))),
        ];
        native!(v; Value, u8, u16, u32, u64, i8, i16, i32, i64, u128, bool, char, String, (), Vec<u8>, [u8; 0], [u8; 2], [u8; 32], [u16; 2], [String; 3]);
        native!(v; Vec<u64>, Vec<u128>, Vec<Vec<Vec<u8>>>, Vec<Value>, Option<u8>, Option<Vec<i8>>, (u8,), (u8, String), (u128, Vec<u8>, i64), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8));
        native!(v; BTreeSet<u8>, HashSet<String>, BTreeMap<u8, u8>, BTreeMap<Value, Value>, HashMap<String, u8>, HashMap<(u8, u8), Vec<char>>, BTreeMap<BTreeMap<u8, u8>, [u8; 1]>, Vec<[u8; 32]>, Vec<()>, Vec<Option<bool>>);
        native!(v; sample::Named, sample::Loose, sample::Value0, sample::Arr, sample::Pair, sample::Nothing, sample::Mixed, sample::Plain, sample::Numbered, sample::Outer, sample::Tagged, sample::Hashed, sample::Wrap<sample::Wrap<u8>>, sample::Rec, sample::RecE, Vec<sample::Loose>, BTreeMap<String, sample::Mixed>);
        serded!(v; u8, i8, u64, i64, u128, i128, f32, f64, bool, char, String, (), Option<u8>, Vec<u8>, serde_bytes::ByteBuf, Vec<Vec<String>>, [u8; 4], (u8, String), BTreeMap<String, i32>, HashMap<u8, Vec<bool>>, serde::de::IgnoredAny);
        serded!(v; sd::Named, sd::Plain, sd::Adj, sd::Un, sd::Tup, sd::Unit, sd::New, sd::Rec, sd::Flat, Vec<sd::Unit>, Vec<()>);
        v
    })
}

/// Bytes of memory allowed for an input of a length: linear in it, with room for an implementation
/// that reserves space for no more elements at a level than there are bytes left.
fn allowed(len: usize) -> i64 {
    let n = len as i64;
    (8 << 10) + 600 * n + 64 * n * n.min(128)
}

fn run_entries(b: &[u8]) -> Out {
    let cap = allowed(b.len());
    for (name, f) in entries() {
        step(1);
        let (r, peak) = peak_of(cap.max(64 << 20), || no_panic(|| f(b)));
        r.map_err(|p| format!("{name}: panic: {p}"))?;
        if peak > cap {
            return Err(format!("{name}: {peak} bytes of memory for {} bytes of input", b.len()));
        }
    }
    Ok(match Dec::run(false, Some(127), b) {
        Ok(_) => "well-formed",
        Err(_) => "malformed",
    })
}

fn safe(_: &str, b: &[u8]) -> Out {
    run_entries(b)
}
/// On a thread with a stack of the usual size.
fn safe_small_stack(_: &str, b: &[u8]) -> Out {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || run_entries(b)).unwrap().join().unwrap_or_else(|_| Err("panic".into()))
    })
}
/// A type of the registry, from a value and from bytes.
fn safe_typed(arg: &str, b: &[u8]) -> Out {
    let f = reg().get(arg).d();
    let ok = (f.from_slice)(b).is_ok() | (f.non_strict)(b).is_ok();
    if let Ok(v) = reader::read_nested_non_strict(b, None) {
        let _ = (f.try_from)(v.clone());
        let _ = (f.try_from_default)(v.clone());
        let _ = (f.from_value)(v);
    }
    Ok(if ok { "accepted" } else { "rejected" })
}

pub fn c04() -> Prop {
    let mut engines: Vec<_> = bytesgen::engines(safe).into_iter().map(|mut e| {
        if e.name == "nest" {
            e.check = safe_small_stack
        }
        e
    }).collect();
    engines.push(eng("typed", safe_typed));
    engines.push(eng("samples", safe));
    Prop { id: "C04", engines, explore: ex04 }
}

fn ex04(ctx: &Ctx, p: &Prop) {
    ctx.bound(format!("{} entry points (strict, lenient, serde) on every input, with memory measured; the nest inputs on a 2 MB stack", entries().len()));
    ctx.note("memory allowed", "8 KiB + (600 + 64 min(n, 128)) bytes per byte of an input of n bytes");
    let cfg = if ctx.thorough {
        Cfg { full: 3, pruned: 0, alpha: 6, utf8_full: false, arg8: 5, arg4: 8, arg2_full: true, mutate_nodes: 4, ctx_depth: 3, big: true, places: 1 }
    } else {
        Cfg { full: 2, pruned: 3, alpha: 4, utf8_full: false, arg8: 3, arg4: 5, arg2_full: false, mutate_nodes: 3, ctx_depth: 2, big: false, places: 0 }
    };
    bytesgen::explore(ctx, &p.engines, cfg);

    let e = p.engine("typed");
    let reg = reg();
    let n = if ctx.thorough { 40 } else { 10 };
    ctx.bound(format!("typed: {} types, encodings of up to {n} values of each with every edit of the data item and every truncation", reg.list.len()));
    ctx.par(reg.list.len(), true, |w, i| {
        let o = &reg.list[i];
        for m in inputs(&o.ty, n, false) {
            w.case(&e, &o.name, &m.enc_raw());
        }
        for d in dom(&o.ty, n) {
            let b = enc(&o.ty, &d).enc_raw();
            for k in 0..b.len().min(60) {
                w.case(&e, &o.name, &b[..k]);
            }
        }
    });

    let e = p.engine("samples");
    let docs = sample_docs();
    ctx.bound(format!("samples: {} encodings of derived types; every prefix, deletion, substitution of a byte, and replacement of a byte by a head declaring a huge length{}", docs.len(), if ctx.thorough { ", and every pair of substitutions from 28 bytes" } else { "" }));
    let work: Vec<(usize, usize)> = docs.iter().enumerate().flat_map(|(i, d)| (0..=d.len()).map(move |k| (i, k))).collect();
    ctx.par(work.len(), true, |w, i| {
        let (i, k) = work[i];
        let d = &docs[i];
        w.case(&e, "", &d[..k]);
        if k == d.len() {
            w.case(&e, "", d);
            return;
        }
        let mut c = d.clone();
        c.remove(k);
        w.case(&e, "", &c);
        for b in 0..=255 {
            let mut c = d.clone();
            c[k] = b;
            w.case(&e, "", &c);
        }
        for major in 2..7 {
            for n in [u64::MAX, 1 << 63, u64::MAX >> 1, 1 << 60, 1 << 59, 1 << 40, u32::MAX as u64, 1 << 31, 1 << 24, 0xffff, 255] {
                let mut c = d[..k].to_vec();
                head(major, n, &mut c);
                w.case(&e, "", &c);
                c.extend(&d[k + 1..]);
                w.case(&e, "", &c);
            }
        }
        if w.ctx.thorough {
            const I: [u8; 28] = [0, 1, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1f, 0x20, 0x38, 0x40, 0x41, 0x58, 0x5f, 0x60, 0x61, 0x78, 0x80, 0x81, 0x98, 0xa0, 0xa1, 0xc1, 0xf5, 0xf6, 0xf7, 0xff];
            for l in k + 1..d.len() {
                for a in I {
                    for b in I {
                        let mut c = d.clone();
                        c[k] = a;
                        c[l] = b;
                        w.case(&e, "", &c);
                    }
                }
            }
        }
    });
}

/// Encodings of values of the derived samples.
fn sample_docs() -> Vec<Vec<u8>> {
    use sample::*;
    let named = || Named { a: 1, b: Some("x".into()), c: vec![1, 2], d: 77, e: 0 };
    let arr = || Arr { a: -5, b: (true, 'q'), c: 0, d: Some([1, 2]) };
    let mut v = vec![
        oasis_cbor::to_vec(named()),
        oasis_cbor::to_vec(Named::default()),
        oasis_cbor::to_vec(Loose { a: 3, n: named(), v: Value0(Value::Array(vec![Value::Unsigned(1)])) }),
        oasis_cbor::to_vec(arr()),
        oasis_cbor::to_vec(Pair(1 << 100, vec![named(), named()])),
        oasis_cbor::to_vec(Nothing),
        oasis_cbor::to_vec(Mixed { s: 12, m: [("k".to_string(), Plain::New(1))].into_iter().collect(), p: Plain::Rec { x: 1, y: Some(-1) }, nothing: Nothing, arr: vec![arr()] }),
        oasis_cbor::to_vec(Numbered::C),
        oasis_cbor::to_vec(Outer::Own(named())),
        oasis_cbor::to_vec(Outer::Inner(Plain::Two)),
        oasis_cbor::to_vec(Outer::Tagged(Tagged::V2 { a: 4 })),
        oasis_cbor::to_vec(Tagged::V1(named())),
        oasis_cbor::to_vec(Tagged::V3),
        oasis_cbor::to_vec(Tagged::V0 { a: 1, q: vec![1] }),
        oasis_cbor::to_vec(Hashed { m: [("a".to_string(), 1)].into_iter().collect(), s: [3].into_iter().collect() }),
        oasis_cbor::to_vec(Rec { n: 1, next: vec![Rec { n: 2, next: vec![] }, Rec::default()] }),
        oasis_cbor::to_vec(RecE::Node(Box2(vec![RecE::Leaf, RecE::Many { l: vec![RecE::Leaf] }]))),
    ];
    for p in [Plain::One, Plain::Three, Plain::Tup(1, "q".into()), Plain::RecArr { x: 1, y: true }, Plain::UnitStruct, Plain::Rec { x: 0, y: None }] {
        v.push(oasis_cbor::to_vec(p));
    }
    let s = || sd::Named { a: 1, b: None, zz: vec![1, 2], d: 0 };
    fn ser<T: serde::Serialize>(t: T) -> Vec<u8> {
        oasis_cbor::serde::to_vec(&t).unwrap()
    }
    v.extend([
        ser(s()),
        ser(sd::Plain::One),
        ser(sd::Plain::New(3)),
        ser(sd::Plain::Tup(1, "t".into())),
        ser(sd::Plain::Rec { x: 1, y: Some(-1) }),
        ser(sd::Plain::Sub(s())),
        ser(sd::Adj::A),
        ser(sd::Adj::C { x: -9 }),
        ser(sd::Un::M([("a".to_string(), 1)].into_iter().collect())),
        ser(sd::Tup(1 << 90, 'x', -1)),
        ser(sd::New(vec![sd::Plain::One])),
        ser(sd::Rec { n: 0, next: vec![sd::Rec { n: 1, next: vec![] }] }),
        ser(sd::Flat { a: 1, rest: [("z".to_string(), 5)].into_iter().collect() }),
    ]);
    v
}

// ---- C23

fn derr(r: &Result<Value, reader::DecoderError>) -> bool {
    r.is_err()
}

/// A registry type: entry points against their composition.
fn compose_typed(arg: &str, b: &[u8]) -> Out {
    let f = reg().get(arg).d();
    let strict = reader::read_nested(b, Some(64));
    let lenient = reader::read_nested_non_strict(b, Some(64));
    let outcome = if derr(&strict) { "parsing fails" } else { "parses" };
    for (r, got, what) in [(strict, (f.from_slice)(b), "strict"), (lenient, (f.non_strict)(b), "lenient")] {
        step(1);
        let want = match r {
            Err(_) => Err(mctyped::schema::PARSE),
            Ok(v) => {
                let a = (f.from_value)(v.clone());
                let b = (f.try_from_default)(v);
                if a != b {
                    return Err(format!("from_value gives {a:?}, try_from_cbor_value_default {b:?}"));
                }
                a
            }
        };
        if want != got {
            return Err(format!("{what} decoding as {arg} gives {got:?}, parsing and conversion {want:?}"));
        }
    }
    Ok(outcome)
}

fn dbg<T: Debug>(r: Result<T, DecodeError>) -> String {
    format!("{:?}", r)
}
fn compose_native<T: Decode + Debug>(b: &[u8]) -> Result<(), String> {
    let go = |r: Result<Value, reader::DecoderError>| match r {
        Err(_) => Err(DecodeError::ParsingFailed),
        Ok(v) => oasis_cbor::from_value::<T>(v),
    };
    step(2);
    let (a, w) = (dbg(oasis_cbor::from_slice::<T>(b)), dbg(go(reader::read_nested(b, Some(64)))));
    if a != w {
        return Err(format!("strict decoding as {} gives {a}, parsing and conversion {w}", std::any::type_name::<T>()));
    }
    let (a, w) = (dbg(oasis_cbor::from_slice_non_strict::<T>(b)), dbg(go(reader::read_nested_non_strict(b, Some(64)))));
    if a != w {
        return Err(format!("lenient decoding as {} gives {a}, parsing and conversion {w}", std::any::type_name::<T>()));
    }
    Ok(())
}
fn compose_serde<T: DeserializeOwned + Debug>(b: &[u8]) -> Result<(), String> {
    step(1);
    let a = format!("{:?}", oasis_cbor::serde::from_slice::<T>(b).map_err(|e| format!("{e:?}")));
    let w = match reader::read_nested(b, Some(64)) {
        Err(e) => format!("{:?}", Err::<T, _>(format!("{:?}", oasis_cbor::serde::Error::ByteDecoder(e)))),
        Ok(v) => format!("{:?}", oasis_cbor::serde::from_value::<T>(v).map_err(|e| format!("{e:?}"))),
    };
    if a != w {
        return Err(format!("serde decoding as {} gives {a}, parsing and conversion {w}", std::any::type_name::<T>()));
    }
    Ok(())
}

/// A few types, on any bytes.
fn compose_some(_: &str, b: &[u8]) -> Out {
    compose_native::<Value>(b)?;
    compose_native::<u8>(b)?;
    compose_native::<Vec<u8>>(b)?;
    compose_native::<BTreeMap<Value, Value>>(b)?;
    compose_native::<sample::Named>(b)?;
    compose_serde::<BTreeMap<String, Option<Vec<i64>>>>(b)?;
    compose_serde::<u64>(b)?;
    Ok(if reader::read_nested(b, Some(64)).is_err() { "parsing fails" } else { "parses" })
}
fn compose_samples(_: &str, b: &[u8]) -> Out {
    compose_native::<sample::Named>(b)?;
    compose_native::<sample::Loose>(b)?;
    compose_native::<sample::Arr>(b)?;
    compose_native::<sample::Pair>(b)?;
    compose_native::<sample::Nothing>(b)?;
    compose_native::<sample::Mixed>(b)?;
    compose_native::<sample::Plain>(b)?;
    compose_native::<sample::Numbered>(b)?;
    compose_native::<sample::Outer>(b)?;
    compose_native::<sample::Tagged>(b)?;
    compose_native::<sample::Rec>(b)?;
    compose_native::<sample::RecE>(b)?;
    compose_serde::<sd::Named>(b)?;
    compose_serde::<sd::Plain>(b)?;
    compose_serde::<sd::Adj>(b)?;
    compose_serde::<sd::Un>(b)?;
    compose_serde::<sd::Rec>(b)?;
    compose_serde::<sd::Flat>(b)?;
    Ok(if reader::read_nested(b, Some(64)).is_err() { "parsing fails" } else { "parses" })
}

/// Typed encoding as conversion and generic encoding.
fn compose_enc(arg: &str, b: &[u8]) -> Out {
    let o = reg().get(arg);
    let d = bytes_d(b);
    let e = o.e();
    step(1);
    let (v, w) = ((e.to_value)(&d), (e.value)(&d));
    if from_value(&v)?.canon() != from_value(&w)?.canon() {
        return Err(format!("to_value gives {v:?}, into_cbor_value {w:?}"));
    }
    let mut out = vec![];
    let r = writer::write(v, &mut out);
    let got = no_panic(|| (e.to_vec)(&d));
    match (r, got) {
        (Ok(()), Ok(g)) if g == out => Ok("encoded"),
        (Err(_), Err(_)) => Ok("not encodable"),
        (r, g) => Err(format!("to_vec gives {g:?}, writing the value {r:?} with {}", hex(&out))),
    }
}

/// Values that have no canonical encoding, as generic values (raw encoding given) and typed.
fn refused(_: &str, b: &[u8]) -> Out {
    let m = bytes_m(b);
    let bad = m.depth() > 127 || m.enc().is_none();
    let v = to_value(&m);
    let mut out = vec![];
    let g = writer::write(v.clone(), &mut out).is_ok();
    let t = no_panic(|| oasis_cbor::to_vec(v.clone()));
    let a = no_panic(|| oasis_cbor::to_vec(vec![v.clone()]));
    let x = no_panic(|| oasis_cbor::to_vec(sample::Value0(v.clone())));
    let x2 = no_panic(|| oasis_cbor::to_vec(BTreeMap::from([(1u8, v.clone())])));
    if g != !bad || t.is_ok() != !bad || x.is_ok() != !bad {
        return Err(format!("{}: generic {g}, typed {:?}, derived {:?}", show(&m), t.is_ok(), x.is_ok()));
    }
    let deeper = m.depth() + 1 > 127 || m.enc().is_none();
    if a.is_ok() == deeper || x2.is_ok() == deeper {
        return Err(format!("in a vector: {:?}, in a map: {:?}", a.is_ok(), x2.is_ok()));
    }
    Ok(if bad { "refused" } else { "encoded" })
}

/// Typed values whose keys differ but encode alike.
fn colliding(arg: &str, _: &[u8]) -> Out {
    fn no<T: Encode>(t: T) -> Out {
        match no_panic(|| oasis_cbor::to_vec(t)) {
            Ok(b) => Err(format!("equal keys encoded to {}", hex(&b))),
            Err(_) => Ok("refused"),
        }
    }
    fn sno<T: serde::Serialize>(t: T) -> Out {
        match oasis_cbor::serde::to_vec(&t) {
            Ok(b) => Err(format!("equal keys encoded to {}", hex(&b))),
            Err(_) => Ok("refused"),
        }
    }
    let pairs = || [(None, 1u8), (Some(()), 2)];
    match arg {
        "btree" => no(BTreeMap::from(pairs())),
        "hash" => no(HashMap::from(pairs())),
        "nested" => no(vec![Some(BTreeMap::from(pairs()))]),
        "key" => no(BTreeMap::from([(BTreeMap::from(pairs()), 1u8)])),
        "set" => no(HashSet::from([BTreeMap::from(pairs())])),
        "vecs" => no(BTreeMap::from([(Some(None), 1u8), (None, 2), (Some(Some(1u8)), 3)])),
        "serde btree" => sno(BTreeMap::from(pairs())),
        "serde nested" => sno(vec![HashMap::from(pairs())]),
        "serde flat" => sno(sd::Flat { a: 1, rest: [("a".to_string(), 5)].into_iter().collect() }),
        _ => panic!(),
    }
}
const COLLIDING: [&str; 9] = ["btree", "hash", "nested", "key", "set", "vecs", "serde btree", "serde nested", "serde flat"];

/// Serde encoding as conversion and generic encoding.
fn serde_enc(_: &str, b: &[u8]) -> Out {
    fn go<T: serde::Serialize>(t: &T) -> Result<(), String> {
        let v = oasis_cbor::serde::to_value(t).map_err(|e| e.to_string());
        let want = v.and_then(|v| {
            let mut out = vec![];
            writer::write(v, &mut out).map_err(|e| format!("{e:?}"))?;
            Ok(out)
        });
        let got = oasis_cbor::serde::to_vec(t).map_err(|e| e.to_string());
        if want.is_ok() != got.is_ok() || (want.is_ok() && want != got) {
            return Err(format!("to_vec gives {got:?}, writing the value {want:?}"));
        }
        Ok(())
    }
    let mut n = 0;
    macro_rules! try_as {
        ($($t:ty),*) => {$( if let Ok(t) = oasis_cbor::serde::from_slice::<$t>(b) { n += 1; go(&t)?; } )*};
    }
    try_as!(sd::Named, sd::Plain, sd::Adj, sd::Un, sd::Tup, sd::New, sd::Rec, sd::Flat, u64, i64, String, Vec<i64>, BTreeMap<String, i64>);
    Ok(if n > 0 { "encoded" } else { "no type fits" })
}

pub fn c23() -> Prop {
    let mut engines = bytesgen::engines(compose_some);
    engines.extend([eng("types", compose_typed), eng("samples", compose_samples), eng("encode", compose_enc), eng("refused", refused), eng("colliding", colliding), eng("serde", serde_enc)]);
    Prop { id: "C23", engines, explore: ex23 }
}

fn ex23(ctx: &Ctx, p: &Prop) {
    let cfg = if ctx.thorough {
        Cfg { full: 3, pruned: 0, alpha: 7, utf8_full: true, arg8: 5, arg4: 16, arg2_full: true, mutate_nodes: 5, ctx_depth: 4, big: true, places: 1 }
    } else {
        Cfg { full: 2, pruned: 3, alpha: 5, utf8_full: false, arg8: 4, arg4: 8, arg2_full: false, mutate_nodes: 4, ctx_depth: 3, big: false, places: 0 }
    };
    bytesgen::explore(ctx, &p.engines, cfg);
    let (e, ee) = (p.engine("types"), p.engine("encode"));
    let reg = reg();
    let n = if ctx.thorough { 200 } else { 25 };
    ctx.bound(format!("types, encode: {} types, encodings of up to {n} values of each with every edit of the data item, every truncation and one extra byte; edits also nested to depths 62 to 66", reg.list.len()));
    ctx.par(reg.list.len(), true, |w, i| {
        let o = &reg.list[i];
        for m in inputs(&o.ty, n.min(40), false) {
            let b = m.enc_raw();
            w.case(&e, &o.name, &b);
        }
        for d in dom(&o.ty, n) {
            w.case(&ee, &o.name, &d_bytes(&d));
            let b = enc(&o.ty, &d).enc_raw();
            for k in 0..b.len().min(40) {
                w.case(&e, &o.name, &b[..k]);
            }
            let mut c = b.clone();
            c.push(0);
            w.case(&e, &o.name, &c);
            // A wider head than needed.
            if b[0] & 31 < 24 {
                let mut c = vec![b[0] & 0xe0 | 24, b[0] & 31];
                c.extend(&b[1..]);
                w.case(&e, &o.name, &c);
            }
        }
        for d in 62..=66 {
            for s in valgen::STEPS {
                w.case(&e, &o.name, &bytesgen::nested_bytes(&vec![s; d], &[0x00]));
            }
        }
    });
    let (e, es) = (p.engine("samples"), p.engine("serde"));
    let docs = sample_docs();
    ctx.bound(format!("samples: {} encodings of derived types, every prefix, deletion, substitution of a byte", docs.len()));
    ctx.par(docs.len(), true, |w, i| {
        let d = &docs[i];
        w.case(&e, "", d);
        w.case(&es, "", d);
        for k in 0..d.len() {
            w.case(&e, "", &d[..k]);
            let mut c = d.clone();
            c.remove(k);
            w.case(&e, "", &c);
            w.case(&es, "", &c);
            for b in 0..=255 {
                let mut c = d.clone();
                c[k] = b;
                w.case(&e, "", &c);
                w.case(&es, "", &c);
            }
        }
    });
    let e = p.engine("refused");
    let mut ms = valgen::trees(if ctx.thorough { 6 } else { 5 }, &[M::U(0), M::U(1), t("a")], &[1]);
    for s in valgen::STEPS {
        for d in 120..=131 {
            ms.push(valgen::nest(&vec![s; d], M::U(0)));
            ms.push(valgen::nest(&vec![s; d], M::A(vec![])));
        }
        // Equal keys at the bottom of a chain.
        for d in [1, 5, 60, 120, 126, 127, 128] {
            ms.push(valgen::nest(&vec![s; d], M::Map(vec![(M::U(0), M::U(0)), (M::U(0), M::U(1))])));
            ms.push(valgen::nest(&vec![s; d], M::Map(vec![(M::U(0), M::U(0)), (M::U(2), M::U(0)), (M::U(1), M::U(0)), (M::U(2), M::U(1))])));
        }
    }
    ctx.bound(format!("refused: {} generic values with and without equal keys or nesting beyond 127", ms.len()));
    ctx.par(ms.len(), true, |w, i| w.case(&e, "", &ms[i].enc_raw()));
    let e = p.engine("colliding");
    ctx.par(COLLIDING.len(), true, |w, i| w.case(&e, COLLIDING[i], &[]));
}
