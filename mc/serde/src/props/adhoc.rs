//! Types that have no description in the reference semantics.
use std::borrow::Cow;
use std::collections::{BTreeMap, LinkedList, VecDeque};
use std::fmt::Debug;

use mccore::model::*;
use mctyped::checks::Out;
use mctyped::dom::bytes_m;
use oasis_cbor::serde as cs;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "t", content = "c")]
enum Adj {
    A,
    B(u8),
    C { x: i64 },
    D(String, bool),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "kind")]
enum Tagged {
    A,
    C { x: i64, y: Option<String> },
    S(Inner),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
enum Un {
    N(i64),
    S(String),
    L(Vec<i16>),
    M(BTreeMap<String, u8>),
    R { q: u8, r: bool },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Inner {
    a: u8,
    zz: Option<i64>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Flat {
    m: u8,
    #[serde(flatten)]
    inner: Inner,
    #[serde(flatten)]
    rest: BTreeMap<String, i64>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Rec {
    n: u8,
    next: Option<Box<Rec>>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Gen<T> {
    v: T,
    w: Vec<T>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Tree {
    Leaf,
    Node(Box<Tree>, Box<Tree>),
    Named { l: Box<Tree> },
    New(Box<Tree>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Words {
    #[serde(rename = "")]
    Empty,
    #[serde(rename = "é水")]
    Unicode(()),
    #[serde(rename = "a rather long name of a variant, over 24 bytes")]
    Long { x: () },
    #[serde(skip)]
    #[allow(dead_code)]
    Skipped,
    #[serde(alias = "old")]
    New,
}

pub type Example = Box<dyn Fn() -> Result<(), String> + Send + Sync>;

fn ex<T: Serialize + DeserializeOwned + PartialEq + Debug + Send + Sync + 'static>(v: T, m: M) -> Example {
    Box::new(move || {
        let want = m.enc().unwrap();
        let b = cs::to_vec(&v).map_err(|e| format!("{v:?} does not encode: {e}"))?;
        if b != want {
            return Err(format!("{v:?} encodes to {} instead of {}", show_hex(&b), show_hex(&want)));
        }
        let back: T = cs::from_slice(&b).map_err(|e| format!("{v:?} does not come back: {e}"))?;
        if back != v {
            return Err(format!("{v:?} comes back as {back:?}"));
        }
        let back: T = cs::from_value(to_value(&m)).map_err(|e| format!("{v:?} does not come back from its value: {e}"))?;
        if back != v {
            return Err(format!("{v:?} comes back from its value as {back:?}"));
        }
        Ok(())
    })
}
fn comes_back<T: Serialize + DeserializeOwned + PartialEq + Debug + Send + Sync + 'static>(v: T) -> Example {
    Box::new(move || {
        let b = cs::to_vec(&v).map_err(|e| format!("{v:?} does not encode: {e}"))?;
        let a: T = cs::from_slice(&b).map_err(|e| format!("{v:?} does not come back: {e}"))?;
        let w = cs::to_value(&v).map_err(|e| format!("{v:?} does not encode: {e}"))?;
        let c: T = cs::from_value(w).map_err(|e| format!("{v:?} does not come back from its value: {e}"))?;
        if a != v || c != v {
            return Err(format!("{v:?} comes back as {a:?}, {c:?}"));
        }
        Ok(())
    })
}
/// Encoding must fail.
fn refused<T: Serialize + Debug + Send + Sync + 'static>(v: T) -> Example {
    Box::new(move || match cs::to_vec(&v) {
        Ok(b) => Err(format!("{v:?} encodes to {}", show_hex(&b))),
        Err(_) => Ok(()),
    })
}

fn map(e: Vec<(&str, M)>) -> M {
    M::Map(e.into_iter().map(|(k, v)| (t(k), v)).collect())
}

pub fn examples() -> &'static Vec<Example> {
    static E: std::sync::OnceLock<Vec<Example>> = std::sync::OnceLock::new();
    E.get_or_init(make)
}

fn make() -> Vec<Example> {
    let u = |n: u64| M::U(n);
    let mut v: Vec<Example> = vec![
        ex(Adj::A, map(vec![("t", t("A"))])),
        ex(Adj::C { x: -1 }, map(vec![("t", t("C")), ("c", map(vec![("x", M::N(0))]))])),
        ex(Adj::D("s".into(), true), map(vec![("t", t("D")), ("c", M::A(vec![t("s"), TRUE]))])),
        ex(Tagged::A, map(vec![("kind", t("A"))])),
        ex(Tagged::C { x: i64::MIN, y: None }, map(vec![("kind", t("C")), ("x", int(i64::MIN as i128)), ("y", NULL)])),
        ex(Tagged::C { x: i64::MAX, y: Some("z".into()) }, map(vec![("kind", t("C")), ("x", u(i64::MAX as u64)), ("y", t("z"))])),
        ex(Tagged::S(Inner { a: 3, zz: Some(-4) }), map(vec![("kind", t("S")), ("a", u(3)), ("zz", M::N(3))])),
        ex(Un::S("x".into()), t("x")),
        ex(Un::L(vec![1, -2]), M::A(vec![u(1), M::N(1)])),
        ex(Un::M(BTreeMap::from([("k".into(), 1)])), map(vec![("k", u(1))])),
        ex(Un::R { q: 1, r: false }, map(vec![("q", u(1)), ("r", FALSE)])),
        ex(Flat { m: 1, inner: Inner { a: 2, zz: Some(5) }, rest: BTreeMap::new() }, map(vec![("m", u(1)), ("a", u(2)), ("zz", u(5))])),
        ex(Flat { m: 1, inner: Inner { a: 2, zz: Some(-5) }, rest: BTreeMap::from([("b".into(), i64::MIN), ("zzz".into(), 9)]) }, map(vec![("m", u(1)), ("a", u(2)), ("zz", M::N(4)), ("b", int(i64::MIN as i128)), ("zzz", u(9))])),
        refused(Flat { m: 1, inner: Inner { a: 2, zz: None }, rest: BTreeMap::from([("m".into(), 1)]) }),
        refused(Flat { m: 1, inner: Inner { a: 2, zz: None }, rest: BTreeMap::from([("zz".into(), 1)]) }),
        ex(Gen { v: Inner { a: 0, zz: None }, w: vec![] }, map(vec![("v", map(vec![("a", u(0)), ("zz", NULL)])), ("w", M::A(vec![]))])),
        ex(Gen { v: "x".to_string(), w: vec!["".into(), "y".into()] }, map(vec![("v", t("x")), ("w", M::A(vec![t(""), t("y")]))])),
        ex(Words::Empty, t("")),
        ex(Words::Unicode(()), map(vec![("é水", NULL)])),
        ex(Words::Long { x: () }, map(vec![("a rather long name of a variant, over 24 bytes", map(vec![("x", NULL)]))])),
        ex(Words::New, t("New")),
        ex(VecDeque::from([1u8, 2]), M::A(vec![u(1), u(2)])),
        ex(LinkedList::from([1u64, u64::MAX]), M::A(vec![u(1), u(u64::MAX)])),
        ex(Box::new(7i16), u(7)),
        ex(Cow::<'static, str>::Borrowed("cow"), t("cow")),
        ex(std::time::Duration::new(u64::MAX, 999_999_999), map(vec![("secs", u(u64::MAX)), ("nanos", u(999_999_999))])),
        ex(Ok::<u8, String>(1), map(vec![("Ok", u(1))])),
        ex(Err::<u8, String>("e".into()), map(vec![("Err", t("e"))])),
        ex(3u32..9, map(vec![("start", u(3)), ("end", u(9))])),
        ex(std::num::NonZeroU8::new(3).unwrap(), u(3)),
        ex(usize::MAX, u(u64::MAX)),
        ex(isize::MIN, int(i64::MIN as i128)),
        ex(std::marker::PhantomData::<u8>, NULL),
        ex(std::num::Wrapping(4u8), u(4)),
        ex(Some(Some(3u8)), u(3)),
        ex(BTreeMap::from([(Some(1u8), 1u8), (None, 2)]), M::Map(vec![(u(1), u(1)), (NULL, u(2))])),
        refused(BTreeMap::from([(Some(None::<u8>), 1u8), (None, 2)])),
        ex(BTreeMap::from([(vec![1u8, 2], 1u8), (vec![3], 2), (vec![], 3)]), M::Map(vec![(M::A(vec![u(1), u(2)]), u(1)), (M::A(vec![u(3)]), u(2)), (M::A(vec![]), u(3))])),
        ex(BTreeMap::from([(BTreeMap::from([(2u8, 0u8), (24, 1)]), 1u8), (BTreeMap::new(), 2), (BTreeMap::from([(2, 0)]), 0)]),
            M::Map(vec![(M::Map(vec![(u(2), u(0)), (u(24), u(1))]), u(1)), (M::Map(vec![]), u(2)), (M::Map(vec![(u(2), u(0))]), u(0))])),
        ex('\u{10ffff}', u(0x10ffff)),
        ex(std::cmp::Reverse(3u8), u(3)),
        ex(3i64..=9, map(vec![("start", u(3)), ("end", u(9))])),
        ex(..4u8, map(vec![("end", u(4))])),
        ex(4u8.., map(vec![("start", u(4))])),
        ex(std::ops::Bound::<u8>::Unbounded, t("Unbounded")),
        ex(std::ops::Bound::Included(1u8), map(vec![("Included", u(1))])),
        ex(std::ops::Bound::Excluded("x".to_string()), map(vec![("Excluded", t("x"))])),
        ex(std::time::UNIX_EPOCH + std::time::Duration::new(70000, 5), map(vec![("secs_since_epoch", u(70000)), ("nanos_since_epoch", u(5))])),
        ex(std::path::PathBuf::from("/a/é"), t("/a/é")),
        ex(std::ffi::OsString::from("x"), map(vec![("Unix", M::A(vec![u(120)]))])),
        ex(std::num::NonZeroI64::MIN, int(i64::MIN as i128)),
        ex(std::num::NonZeroU128::MAX, M::B(vec![0xff; 16])),
        ex(std::sync::atomic::AtomicU32::new(7).into_inner(), u(7)),
        ex("boxed".to_string().into_boxed_str(), t("boxed")),
        ex(vec![1u8, 2].into_boxed_slice(), M::A(vec![u(1), u(2)])),
        ex(std::collections::BinaryHeap::from([1u8, 2]).into_sorted_vec(), M::A(vec![u(1), u(2)])),
        ex([(); 3], M::A(vec![NULL; 3])),
        ex([[1u8, 2], [3, 4]], M::A(vec![M::A(vec![u(1), u(2)]), M::A(vec![u(3), u(4)])])),
        ex((1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 10u8, 11u8, 12u8), M::A((1..13).map(u).collect())),
    ];
    // The form depends on readability; whichever it is, it must come back.
    for s in ["127.0.0.1", "0.0.0.0", "255.255.255.255", "::1", "1:2:3:4:5:6:7:8", "::ffff:1.2.3.4"] {
        let a: std::net::IpAddr = s.parse().unwrap();
        v.push(comes_back(a));
        v.push(comes_back(vec![Some(a), None]));
        v.push(comes_back(BTreeMap::from([(a, 1u8)])));
        for port in [0, 80, 65535] {
            v.push(comes_back(std::net::SocketAddr::new(a, port)));
        }
        match a {
            std::net::IpAddr::V4(a) => v.push(comes_back(a)),
            std::net::IpAddr::V6(a) => v.push(comes_back((a, 1u8))),
        }
    }
    for n in [0u8, 23, 24, 255] {
        v.push(ex(Adj::B(n), map(vec![("t", t("B")), ("c", u(n as u64))])));
    }
    for n in [i64::MIN, i64::MIN + 1, -1, 0, 1, i64::MAX] {
        v.push(ex(Un::N(n), int(n as i128)));
    }
    // Chains up to the limits.
    let (mut r, mut m) = (Rec { n: 0, next: None }, map(vec![("n", u(0)), ("next", NULL)]));
    for i in 1..127 {
        r = Rec { n: i, next: Some(Box::new(r)) };
        m = map(vec![("n", u(i as u64)), ("next", m)]);
        if i < 64 {
            v.push(ex(r.clone(), m.clone()));
        } else {
            let (r, m) = (r.clone(), m.clone());
            v.push(Box::new(move || match cs::to_vec(&r) {
                Ok(b) if Some(&b) == m.enc().as_ref() => match cs::from_slice::<Rec>(&b) {
                    Err(_) => Ok(()),
                    Ok(_) => Err("too deep but decoded".into()),
                },
                r => Err(format!("chain encodes to {r:?}")),
            }));
        }
    }
    for i in 127..140 {
        r = Rec { n: i, next: Some(Box::new(r)) };
        v.push(refused(r.clone()));
    }
    // Every tree of up to five nodes.
    let mut levels: Vec<Vec<(Tree, M)>> = vec![vec![], vec![(Tree::Leaf, t("Leaf"))]];
    for n in 2..=6 {
        let mut l: Vec<(Tree, M)> = vec![];
        for (x, m) in &levels[n - 1] {
            l.push((Tree::New(Box::new(x.clone())), map(vec![("New", m.clone())])));
            l.push((Tree::Named { l: Box::new(x.clone()) }, map(vec![("Named", map(vec![("l", m.clone())]))])));
        }
        for k in 1..n - 1 {
            for (x, m) in &levels[k] {
                for (y, o) in &levels[n - 1 - k] {
                    l.push((Tree::Node(Box::new(x.clone()), Box::new(y.clone())), map(vec![("Node", M::A(vec![m.clone(), o.clone()]))])));
                }
            }
        }
        levels.push(l);
    }
    v.extend(levels.into_iter().flatten().map(|(x, m)| ex(x, m)));
    v
}

pub fn case(_: &str, b: &[u8]) -> Out {
    examples()[u32::from_be_bytes(b.try_into().unwrap()) as usize]()?;
    Ok("as expected")
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct F32 {
    a: u8,
    f: f32,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct FTup(u8, f64);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct FNew(f64);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum FEnum {
    N(f64),
    T(f32, u8),
    S { f: f64 },
}

/// Decoding, telling whether a float came out.
pub type FloatDec = fn(&[u8]) -> Option<bool>;
fn fd<T: DeserializeOwned>(b: &[u8], has: fn(&T) -> bool) -> Option<bool> {
    let v = cs::from_value::<T>(to_value(&bytes_m(b))).ok()?;
    Some(has(&v))
}
pub fn float_types() -> &'static [(&'static str, FloatDec)] {
    &[
        ("f32", |b| fd::<f32>(b, |_| true)),
        ("f64", |b| fd::<f64>(b, |_| true)),
        ("Vec<f64>", |b| fd::<Vec<f64>>(b, |v| !v.is_empty())),
        ("Vec<f32>", |b| fd::<Vec<f32>>(b, |v| !v.is_empty())),
        ("[f64; 1]", |b| fd::<[f64; 1]>(b, |_| true)),
        ("(u8, f64)", |b| fd::<(u8, f64)>(b, |_| true)),
        ("Option<f64>", |b| fd::<Option<f64>>(b, |v| v.is_some())),
        ("Option<f32>", |b| fd::<Option<f32>>(b, |v| v.is_some())),
        ("BTreeMap<u8, f64>", |b| fd::<BTreeMap<u8, f64>>(b, |v| !v.is_empty())),
        ("BTreeMap<String, f32>", |b| fd::<BTreeMap<String, f32>>(b, |v| !v.is_empty())),
        ("F32", |b| fd::<F32>(b, |_| true)),
        ("FTup", |b| fd::<FTup>(b, |_| true)),
        ("FNew", |b| fd::<FNew>(b, |_| true)),
        ("FEnum", |b| fd::<FEnum>(b, |_| true)),
    ]
}
pub fn float_dec(arg: &str, b: &[u8]) -> Out {
    let f = float_types().iter().find(|x| x.0 == arg).unwrap().1;
    match f(b) {
        None => Ok("refused"),
        Some(false) => Ok("accepted without floats"),
        Some(true) => Err(format!("{} is decoded as {arg}, yielding a float", show(&bytes_m(b)))),
    }
}

pub fn floats() -> Vec<u64> {
    let mut v: Vec<f64> = vec![0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 255.0, 256.0, 65536.0, 1e10, 1e300, -1e300, f64::MIN, f64::MAX, f64::EPSILON, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, i64::MIN as f64, u64::MAX as f64];
    v.extend((0..64).map(|k| f64::from_bits(1 << k)));
    v.iter().map(|f| f.to_bits()).collect()
}
pub const POSITIONS: usize = 14;

pub fn float_enc(_: &str, b: &[u8]) -> Out {
    let f = f64::from_bits(u64::from_be_bytes(b[1..].try_into().unwrap()));
    let g = f as f32;
    let r: Result<Vec<u8>, cs::Error> = match b[0] {
        0 => cs::to_vec(&f),
        1 => cs::to_vec(&g),
        2 => cs::to_vec(&vec![f]),
        3 => cs::to_vec(&(1u8, g, "x")),
        4 => cs::to_vec(&Some(f)),
        5 => cs::to_vec(&F32 { a: 1, f: g }),
        6 => cs::to_vec(&FTup(1, f)),
        7 => cs::to_vec(&FNew(f)),
        8 => cs::to_vec(&FEnum::N(f)),
        9 => cs::to_vec(&FEnum::T(g, 1)),
        10 => cs::to_vec(&FEnum::S { f }),
        11 => cs::to_vec(&BTreeMap::from([(1u8, f)])),
        12 => cs::to_vec(&vec![vec![Some(BTreeMap::from([("k", (0u8, g))]))]]),
        _ => cs::to_value(&f).and_then(|v| cs::to_vec(&oasis_cbor::to_vec(v))),
    };
    match r {
        Err(_) => Ok("refused"),
        Ok(b2) => Err(format!("float {f:?} in position {} is encoded as {}", b[0], show_hex(&b2))),
    }
}
