//! C27: whatever calls of the serde interface a hand-written implementation makes, the layer serves
//! them alike.
use std::fmt;

use mccore::explore::{no_panic, Ctx, Prop};
use mccore::model::*;
use mccore::valgen;
use mctyped::checks::Out;
use mctyped::dom::bytes_m;
use oasis_cbor::serde as cs;
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, Error as _};
use serde::ser::{self, Serialize, Serializer};

use super::eng;

pub fn prop() -> Prop {
    Prop { id: "C27", engines: vec![eng("calls", calls_case), eng("hints", hints_case), eng("names", names_case), eng("lengths", lengths_case)], explore }
}

/// Whether the format calls itself human readable: types choose their representation by it, so it
/// must be the same everywhere, in both directions.
fn readable() -> bool {
    struct P;
    impl Serialize for P {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            let b = s.is_human_readable();
            s.serialize_bool(b)
        }
    }
    static R: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *R.get_or_init(|| matches!(cs::to_value(&P), Ok(oasis_cbor::Value::Simple(oasis_cbor::SimpleValue::TrueValue))))
}

/// A tree of calls: what a `Serialize` implementation does.
#[derive(Clone, Debug)]
struct T {
    op: u8,
    kids: Vec<T>,
}
const LEAVES: u8 = 29;
const SOME: u8 = 32;
const NEWTYPE: u8 = 33;
const NEWTYPE_VARIANT: u8 = 34;
const SEQ_LEN: u8 = 40;
const SEQ: u8 = 41;
const COLLECT_SEQ: u8 = 42;
const TUPLE: u8 = 43;
const TUPLE_STRUCT: u8 = 44;
const TUPLE_VARIANT: u8 = 45;
const STRUCT: u8 = 46;
const STRUCT_SKIP: u8 = 47;
const STRUCT_VARIANT: u8 = 48;
const STRUCT_VARIANT_SKIP: u8 = 49;
const MAP_LEN: u8 = 50;
const MAP_PARTS: u8 = 51;
const COLLECT_MAP: u8 = 52;
const MAP_MIXED: u8 = 53;
const FIELDS: [&str; 4] = ["b", "a", "", "long field name, over twenty-three bytes"];
const SKIPPED: [&str; 4] = ["s0", "b", "s2", ""];
const VARIANT: &str = "Variant";

impl T {
    fn bytes(&self, out: &mut Vec<u8>) {
        out.push(self.op);
        if self.op >= LEAVES {
            out.push(self.kids.len() as u8);
            self.kids.iter().for_each(|k| k.bytes(out));
        }
    }
    fn parse(b: &mut &[u8]) -> T {
        let op = b[0];
        *b = &b[1..];
        let mut kids = vec![];
        if op >= LEAVES {
            let n = b[0];
            *b = &b[1..];
            kids = (0..n).map(|_| T::parse(b)).collect();
        }
        T { op, kids }
    }
    fn pairs(&self) -> impl Iterator<Item = (&T, &T)> {
        self.kids.chunks(2).map(|c| (&c[0], &c[1]))
    }
    /// The item it denotes; false if the layer may refuse it. Nothing if it must.
    fn want(&self) -> Option<(M, bool)> {
        let all = |kids: &mut dyn Iterator<Item = &T>| -> Option<(Vec<M>, bool)> {
            let v: Vec<(M, bool)> = kids.map(|k| k.want()).collect::<Option<_>>()?;
            let sure = v.iter().all(|x| x.1);
            Some((v.into_iter().map(|x| x.0).collect(), sure))
        };
        let named = |v: Vec<M>| M::Map(v.into_iter().enumerate().map(|(i, m)| (t(FIELDS[i]), m)).collect());
        let variant = |m: M| M::Map(vec![(t(VARIANT), m)]);
        let m = match self.op {
            0 => FALSE,
            1 => TRUE,
            2 => M::U(200),
            3 => M::U(65535),
            4 => M::U(1 << 31),
            5 => M::U(u64::MAX),
            6 => int(-128),
            7 => int(-300),
            8 => int(70000),
            9 => int(i64::MIN as i128),
            10 => M::B(vec![]),
            11 => M::B(vec![0xff; 16]),
            12 => return Some((M::U(5), false)),
            13 => return Some((int(i64::MIN as i128 - 1), false)),
            14 | 15 => return None,
            16 => M::U('é' as u64),
            17 => t(""),
            18 => t("b"),
            19 => M::B(vec![]),
            20 => M::B(vec![0xff]),
            21..=23 => NULL,
            24 => t(VARIANT),
            25 => t("12-x"),
            26 => if readable() { TRUE } else { FALSE },
            27 => M::U(0),
            28 => M::B(vec![1, 0]),
            SOME => return self.kids[0].want(),
            NEWTYPE | SEQ_LEN..=TUPLE_STRUCT => {
                let (v, s) = all(&mut self.kids.iter())?;
                return Some((M::A(v), s));
            }
            NEWTYPE_VARIANT => {
                let (m, s) = self.kids[0].want()?;
                return Some((variant(m), s));
            }
            TUPLE_VARIANT => {
                let (v, s) = all(&mut self.kids.iter())?;
                return Some((variant(M::A(v)), s));
            }
            STRUCT | STRUCT_SKIP => {
                let (v, s) = all(&mut self.kids.iter())?;
                return Some((named(v), s));
            }
            STRUCT_VARIANT | STRUCT_VARIANT_SKIP => {
                let (v, s) = all(&mut self.kids.iter())?;
                return Some((variant(named(v)), s));
            }
            MAP_LEN..=MAP_MIXED => {
                let (k, s) = all(&mut self.pairs().map(|x| x.0))?;
                let (v, r) = all(&mut self.pairs().map(|x| x.1))?;
                return Some((M::Map(k.into_iter().zip(v).collect()), s && r));
            }
            _ => panic!(),
        };
        Some((m, true))
    }
}

const BAD: &str = "PROTOCOL";

impl Serialize for T {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::*;
        if s.is_human_readable() != readable() {
            return Err(S::Error::custom(format!("{BAD}: readability differs inside")));
        }
        let k = &self.kids;
        let n = k.len();
        match self.op {
            0 => s.serialize_bool(false),
            1 => s.serialize_bool(true),
            2 => s.serialize_u8(200),
            3 => s.serialize_u16(65535),
            4 => s.serialize_u32(1 << 31),
            5 => s.serialize_u64(u64::MAX),
            6 => s.serialize_i8(-128),
            7 => s.serialize_i16(-300),
            8 => s.serialize_i32(70000),
            9 => s.serialize_i64(i64::MIN),
            10 => s.serialize_u128(0),
            11 => s.serialize_u128(u128::MAX),
            12 => s.serialize_i128(5),
            13 => s.serialize_i128(i64::MIN as i128 - 1),
            14 => s.serialize_f32(1.0),
            15 => s.serialize_f64(0.0),
            16 => s.serialize_char('é'),
            17 => s.serialize_str(""),
            18 => s.serialize_str("b"),
            19 => s.serialize_bytes(&[]),
            20 => s.serialize_bytes(&[0xff]),
            21 => s.serialize_none(),
            22 => s.serialize_unit(),
            23 => s.serialize_unit_struct("Named"),
            24 => s.serialize_unit_variant("Enum", 7, VARIANT),
            25 => s.collect_str(&format_args!("{}-{}", 12, 'x')),
            26 => s.serialize_bool(readable()),
            27 => s.serialize_i64(0),
            28 => s.serialize_u128(256),
            SOME => s.serialize_some(&k[0]),
            NEWTYPE => s.serialize_newtype_struct("Named", &k[0]),
            NEWTYPE_VARIANT => s.serialize_newtype_variant("Enum", 3, VARIANT, &k[0]),
            SEQ_LEN | SEQ => {
                let mut q = s.serialize_seq((self.op == SEQ_LEN).then_some(n))?;
                for x in k {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            COLLECT_SEQ => s.collect_seq(k.iter()),
            TUPLE => {
                let mut q = s.serialize_tuple(n)?;
                for x in k {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            TUPLE_STRUCT => {
                let mut q = s.serialize_tuple_struct("Named", n)?;
                for x in k {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            TUPLE_VARIANT => {
                let mut q = s.serialize_tuple_variant("Enum", 0, VARIANT, n)?;
                for x in k {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            STRUCT | STRUCT_SKIP => {
                let mut q = s.serialize_struct("Named", n)?;
                for (i, x) in k.iter().enumerate() {
                    if self.op == STRUCT_SKIP {
                        q.skip_field(SKIPPED[i])?;
                    }
                    q.serialize_field(FIELDS[i], x)?;
                }
                if self.op == STRUCT_SKIP {
                    q.skip_field("last")?;
                }
                q.end()
            }
            STRUCT_VARIANT | STRUCT_VARIANT_SKIP => {
                let mut q = s.serialize_struct_variant("Enum", 1, VARIANT, n)?;
                for (i, x) in k.iter().enumerate() {
                    if self.op == STRUCT_VARIANT_SKIP {
                        q.skip_field(SKIPPED[i])?;
                    }
                    q.serialize_field(FIELDS[i], x)?;
                }
                if self.op == STRUCT_VARIANT_SKIP {
                    q.skip_field("last")?;
                }
                q.end()
            }
            COLLECT_MAP => s.collect_map(self.pairs()),
            MAP_LEN | MAP_PARTS | MAP_MIXED => {
                let mut q = s.serialize_map((self.op == MAP_LEN).then_some(n / 2))?;
                for (i, (x, y)) in self.pairs().enumerate() {
                    if self.op == MAP_LEN || (self.op == MAP_MIXED && i % 2 == 0) {
                        q.serialize_entry(x, y)?;
                    } else {
                        q.serialize_key(x)?;
                        q.serialize_value(y)?;
                    }
                }
                q.end()
            }
            _ => panic!(),
        }
    }
}

/// Reads what a tree has written, by the matching calls.
#[derive(Clone, Copy)]
struct Read<'a>(&'a T);

impl<'de> DeserializeSeed<'de> for Read<'_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        if d.is_human_readable() != readable() {
            return Err(D::Error::custom(format!("{BAD}: readability differs in reading")));
        }
        let n = self.0.kids.len();
        match self.0.op {
            0 | 1 | 26 => d.deserialize_bool(self),
            2 => d.deserialize_u8(self),
            3 => d.deserialize_u16(self),
            4 => d.deserialize_u32(self),
            5 => d.deserialize_u64(self),
            6 => d.deserialize_i8(self),
            7 => d.deserialize_i16(self),
            8 => d.deserialize_i32(self),
            9 | 27 => d.deserialize_i64(self),
            10 | 11 | 28 => d.deserialize_u128(self),
            12 | 13 => d.deserialize_i128(self),
            16 => d.deserialize_char(self),
            17 => d.deserialize_string(self),
            18 | 25 => d.deserialize_str(self),
            19 => d.deserialize_bytes(self),
            20 => d.deserialize_byte_buf(self),
            21 | SOME => d.deserialize_option(self),
            22 => d.deserialize_unit(self),
            23 => d.deserialize_unit_struct("Named", self),
            24 | NEWTYPE_VARIANT | TUPLE_VARIANT | STRUCT_VARIANT | STRUCT_VARIANT_SKIP => d.deserialize_enum("Enum", &["Other", VARIANT], self),
            NEWTYPE => d.deserialize_newtype_struct("Named", self),
            SEQ_LEN..=COLLECT_SEQ => d.deserialize_seq(self),
            TUPLE => d.deserialize_tuple(n, self),
            TUPLE_STRUCT => d.deserialize_tuple_struct("Named", n, self),
            STRUCT | STRUCT_SKIP => d.deserialize_struct("Named", &FIELDS, self),
            MAP_LEN..=MAP_MIXED => d.deserialize_map(self),
            _ => panic!(),
        }
    }
}

impl Read<'_> {
    fn same<E: de::Error>(self, got: M) -> Result<(), E> {
        match self.0.want() {
            Some((m, _)) if m == got => Ok(()),
            w => Err(E::custom(format!("{BAD}: visited {} instead of {w:?}", show(&got)))),
        }
    }
    fn wrong<E: de::Error>(self, what: &str) -> Result<(), E> {
        Err(E::custom(format!("{BAD}: visited as {what}")))
    }
}

/// The hint, where there is one, is right.
fn hint<E: de::Error>(h: Option<usize>, left: usize) -> Result<(), E> {
    match h {
        Some(h) if h != left => Err(E::custom(format!("{BAD}: size hint {h} with {left} left"))),
        _ => Ok(()),
    }
}

impl<'de> de::Visitor<'de> for Read<'_> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "what was written by {:?}", self.0)
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<(), E> {
        self.same(if v { TRUE } else { FALSE })
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<(), E> {
        self.same(M::U(v))
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<(), E> {
        self.same(int(v as i128))
    }
    fn visit_i128<E: de::Error>(self, v: i128) -> Result<(), E> {
        self.same(int(v))
    }
    fn visit_u128<E: de::Error>(self, v: u128) -> Result<(), E> {
        let b = v.to_be_bytes();
        self.same(M::B(b[v.leading_zeros() as usize / 8..].to_vec()))
    }
    fn visit_char<E: de::Error>(self, v: char) -> Result<(), E> {
        self.same(M::U(v as u64))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<(), E> {
        self.same(t(v))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<(), E> {
        self.same(M::B(v.to_vec()))
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        self.same(NULL)
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        match self.0.op {
            21 | SOME => self.wrong("unit"),
            _ => self.same(NULL),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match self.0.op {
            SOME => Read(&self.0.kids[0]).deserialize(d),
            _ => self.wrong("some"),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match self.0.op {
            NEWTYPE => Read(&self.0.kids[0]).deserialize(d),
            _ => self.wrong("newtype"),
        }
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let n = self.0.kids.len();
        if !matches!(self.0.op, NEWTYPE | SEQ_LEN..=TUPLE_VARIANT) {
            return self.wrong("sequence");
        }
        for (i, k) in self.0.kids.iter().enumerate() {
            hint(a.size_hint(), n - i)?;
            if a.next_element_seed(Read(k))?.is_none() {
                return self.wrong("too short a sequence");
            }
        }
        hint(a.size_hint(), 0)?;
        if matches!(self.0.op, SEQ_LEN..=COLLECT_SEQ) {
            for _ in 0..2 {
                if a.next_element::<de::IgnoredAny>()?.is_some() {
                    return self.wrong("too long a sequence");
                }
            }
        }
        Ok(())
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let n = match self.0.op {
            STRUCT..=STRUCT_VARIANT_SKIP => {
                let n = self.0.kids.len();
                for i in 0..n {
                    hint(a.size_hint(), n - i)?;
                    let Some(k) = a.next_key::<String>()? else {
                        return self.wrong("too short a map");
                    };
                    let Some(j) = FIELDS.iter().position(|f| *f == k) else {
                        return self.wrong(&format!("a map with key {k}"));
                    };
                    a.next_value_seed(Read(&self.0.kids[j]))?;
                }
                n
            }
            MAP_LEN..=MAP_MIXED => {
                let mut v: Vec<_> = self.0.pairs().map(|(k, v)| (k.want().unwrap().0.enc().unwrap(), k, v)).collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                for (i, (_, k, x)) in v.iter().enumerate() {
                    hint(a.size_hint(), v.len() - i)?;
                    let more = if (i % 2 == 0) == (self.0.op == MAP_LEN) {
                        a.next_entry_seed(Read(k), Read(x))?.is_some()
                    } else {
                        let more = a.next_key_seed(Read(k))?.is_some();
                        if more {
                            a.next_value_seed(Read(x))?;
                        }
                        more
                    };
                    if !more {
                        return self.wrong("too short a map");
                    }
                }
                v.len()
            }
            _ => return self.wrong("map"),
        };
        let _ = n;
        hint(a.size_hint(), 0)?;
        for _ in 0..2 {
            if a.next_key::<de::IgnoredAny>()?.is_some() {
                return self.wrong("too long a map");
            }
        }
        Ok(())
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        use de::VariantAccess;
        let (name, a): (String, _) = a.variant()?;
        if name != VARIANT {
            return self.wrong(&format!("variant {name}"));
        }
        let n = self.0.kids.len();
        match self.0.op {
            24 => a.unit_variant(),
            NEWTYPE_VARIANT => a.newtype_variant_seed(Read(&self.0.kids[0])),
            TUPLE_VARIANT => a.tuple_variant(n, self),
            STRUCT_VARIANT | STRUCT_VARIANT_SKIP => a.struct_variant(&FIELDS, self),
            _ => self.wrong("enum"),
        }
    }
}

thread_local! {
    static TREE: std::cell::RefCell<Option<T>> = const { std::cell::RefCell::new(None) };
}
/// `Read` of the tree at hand.
struct Whole;
impl<'de> Deserialize<'de> for Whole {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Whole, D::Error> {
        let tree = TREE.with(|c| c.borrow().clone()).unwrap();
        Read(&tree).deserialize(d)?;
        Ok(Whole)
    }
}

/// The start of its debug form.
fn short<X: fmt::Debug + ?Sized>(x: &X) -> String {
    format!("{x:?}").chars().take(300).collect()
}

fn calls_case(_: &str, b: &[u8]) -> Out {
    let tree = T::parse(&mut &b[..]);
    let value = no_panic(|| cs::to_value(&tree))?;
    let bytes = no_panic(|| cs::to_vec(&tree))?;
    let Some((m, sure)) = tree.want() else {
        return match (value, bytes) {
            (Err(a), Err(b)) if !a.to_string().contains(BAD) && !b.to_string().contains(BAD) => Ok("refused: unsupported"),
            (v, b) => Err(format!("{tree:?} holds a float but gives {}, {}", short(&v), short(&b))),
        };
    };
    let want = m.enc();
    match (&value, &bytes) {
        (Err(a), Err(b)) if !sure && !a.to_string().contains(BAD) && !b.to_string().contains(BAD) => return Ok("refused: 128-bit integer"),
        (Ok(v), Ok(b)) if from_value(v).as_ref().map(M::canon) == Ok(m.canon()) && want.as_ref() == Some(b) => {}
        (Ok(v), Err(cs::Error::ByteEncoder(_))) if want.is_none() && from_value(v).as_ref().map(M::canon) == Ok(m.canon()) => return Ok("refused: equal keys"),
        (v, b) => return Err(format!("{tree:?} gives {}, {} instead of {}", short(&v), short(&b), show(&m))),
    }
    TREE.with(|c| *c.borrow_mut() = Some(tree.clone()));
    let r = no_panic(|| cs::from_slice::<Whole>(&bytes.unwrap()))?;
    r.map_err(|e| format!("{tree:?} is not read back from the bytes of {}: {e}", show(&m)))?;
    let r = no_panic(|| cs::from_value::<Whole>(to_value(&m.canon())))?;
    r.map_err(|e| format!("{tree:?} is not read back from {}: {e}", show(&m)))?;
    Ok("read back")
}

/// What a visitor that takes anything has seen.
#[derive(Clone, Debug, PartialEq)]
enum E {
    Bool(bool),
    Num(i128),
    Big(u128),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<E>),
    Newtype(Box<E>),
    Seq(Vec<E>),
    Map(Vec<(E, E)>),
    Enum(Box<E>, Box<E>),
    /// Not looked at.
    Ignored,
}

const HINTS: [&str; 31] = [
    "any", "bool", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "f32", "f64", "char", "str", "string", "bytes", "byte_buf", "option", "unit", "unit_struct", "newtype_struct", "seq", "tuple",
    "tuple_struct", "map", "struct", "enum", "identifier", "ignored_any",
];

/// What the visitor asks for and takes.
#[derive(Clone, Copy)]
struct Script {
    hint: u8,
    inner: u8,
    /// At most this many elements, then none are asked for. All, and more calls afterwards, if 255.
    take: u8,
    /// Entries: 0 whole, 1 in parts, 2 with the value ignored. Variants: 0 unit, 1 newtype, 2 tuple, 3 struct.
    style: u8,
}
impl Script {
    fn inside(self) -> Script {
        Script { hint: self.inner, inner: 0, take: 255, style: 1 }
    }
    fn any() -> Script {
        Script { hint: 0, inner: 0, take: 255, style: 0 }
    }
    fn name(self) -> String {
        format!("{} {} {} {}", self.hint, self.inner, self.take, self.style)
    }
    fn parse(s: &str) -> Script {
        let v: Vec<u8> = s.split(' ').map(|x| x.parse().unwrap()).collect();
        Script { hint: v[0], inner: v[1], take: v[2], style: v[3] }
    }
    /// How many elements or entries are taken.
    fn limit(self) -> usize {
        if self.take == 255 { usize::MAX } else { self.take as usize }
    }
    fn describe(self) -> String {
        let take = if self.take == 255 { "all".into() } else { self.take.to_string() };
        format!("as {} (inside as {}, taking {take}, style {})", HINTS[self.hint as usize], HINTS[self.inner as usize], self.style)
    }
}

impl<'de> DeserializeSeed<'de> for Script {
    type Value = E;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<E, D::Error> {
        if d.is_human_readable() != readable() {
            return Err(D::Error::custom(format!("{BAD}: readability differs in reading")));
        }
        let n = if self.take == 255 { 2 } else { self.take as usize };
        match HINTS[self.hint as usize] {
            "any" => d.deserialize_any(self),
            "bool" => d.deserialize_bool(self),
            "i8" => d.deserialize_i8(self),
            "i16" => d.deserialize_i16(self),
            "i32" => d.deserialize_i32(self),
            "i64" => d.deserialize_i64(self),
            "i128" => d.deserialize_i128(self),
            "u8" => d.deserialize_u8(self),
            "u16" => d.deserialize_u16(self),
            "u32" => d.deserialize_u32(self),
            "u64" => d.deserialize_u64(self),
            "u128" => d.deserialize_u128(self),
            "f32" => d.deserialize_f32(self),
            "f64" => d.deserialize_f64(self),
            "char" => d.deserialize_char(self),
            "str" => d.deserialize_str(self),
            "string" => d.deserialize_string(self),
            "bytes" => d.deserialize_bytes(self),
            "byte_buf" => d.deserialize_byte_buf(self),
            "option" => d.deserialize_option(self),
            "unit" => d.deserialize_unit(self),
            "unit_struct" => d.deserialize_unit_struct("Named", self),
            "newtype_struct" => d.deserialize_newtype_struct("Named", self),
            "seq" => d.deserialize_seq(self),
            "tuple" => d.deserialize_tuple(n, self),
            "tuple_struct" => d.deserialize_tuple_struct("Named", n, self),
            "map" => d.deserialize_map(self),
            "struct" => d.deserialize_struct("Named", &FIELDS, self),
            "enum" => d.deserialize_enum("Enum", &[VARIANT, "a", "b"], self),
            "identifier" => d.deserialize_identifier(self),
            _ => d.deserialize_ignored_any(self),
        }
    }
}

impl<'de> de::Visitor<'de> for Script {
    type Value = E;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<X>(self, v: bool) -> Result<E, X> {
        Ok(E::Bool(v))
    }
    fn visit_i64<X>(self, v: i64) -> Result<E, X> {
        Ok(E::Num(v as i128))
    }
    fn visit_i128<X>(self, v: i128) -> Result<E, X> {
        Ok(E::Num(v))
    }
    fn visit_u64<X>(self, v: u64) -> Result<E, X> {
        Ok(E::Num(v as i128))
    }
    fn visit_u128<X>(self, v: u128) -> Result<E, X> {
        Ok(E::Big(v))
    }
    fn visit_f64<X: de::Error>(self, v: f64) -> Result<E, X> {
        Err(X::custom(format!("{BAD}: float {v}")))
    }
    fn visit_char<X>(self, v: char) -> Result<E, X> {
        Ok(E::Char(v))
    }
    fn visit_str<X>(self, v: &str) -> Result<E, X> {
        Ok(E::Str(v.into()))
    }
    fn visit_bytes<X>(self, v: &[u8]) -> Result<E, X> {
        Ok(E::Bytes(v.into()))
    }
    fn visit_none<X>(self) -> Result<E, X> {
        Ok(E::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<E, D::Error> {
        Ok(E::Some(Box::new(self.inside().deserialize(d)?)))
    }
    fn visit_unit<X>(self) -> Result<E, X> {
        Ok(E::Unit)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<E, D::Error> {
        Ok(E::Newtype(Box::new(self.inside().deserialize(d)?)))
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<E, A::Error> {
        let mut v = vec![];
        let mut left = a.size_hint();
        while v.len() < self.limit() {
            if a.size_hint() != left {
                return Err(A::Error::custom(format!("{BAD}: size hint {:?}, expected {left:?}", a.size_hint())));
            }
            match a.next_element_seed(self.inside())? {
                Some(x) => v.push(x),
                None => {
                    if left.is_some_and(|n| n > 0) || a.next_element_seed(self.inside())?.is_some() {
                        return Err(A::Error::custom(format!("{BAD}: elements after the last, or fewer than hinted")));
                    }
                    break;
                }
            }
            if left == Some(0) {
                return Err(A::Error::custom(format!("{BAD}: more elements than hinted")));
            }
            left = left.map(|n| n - 1);
        }
        Ok(E::Seq(v))
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<E, A::Error> {
        let mut v = vec![];
        let mut left = a.size_hint();
        while v.len() < self.limit() {
            if a.size_hint() != left {
                return Err(A::Error::custom(format!("{BAD}: size hint {:?}, expected {left:?}", a.size_hint())));
            }
            let e = match self.style {
                0 => a.next_entry_seed(self.inside(), self.inside())?,
                1 => match a.next_key_seed(self.inside())? {
                    Some(k) => Some((k, a.next_value_seed(self.inside())?)),
                    None => None,
                },
                _ => match a.next_key_seed(self.inside())? {
                    Some(k) => {
                        a.next_value::<de::IgnoredAny>()?;
                        Some((k, E::Ignored))
                    }
                    None => None,
                },
            };
            match e {
                Some(x) => v.push(x),
                None => {
                    if left.is_some_and(|n| n > 0) || a.next_key_seed(self.inside())?.is_some() || a.next_entry_seed(self.inside(), self.inside())?.is_some() {
                        return Err(A::Error::custom(format!("{BAD}: entries after the last, or fewer than hinted")));
                    }
                    break;
                }
            }
            if left == Some(0) {
                return Err(A::Error::custom(format!("{BAD}: more entries than hinted")));
            }
            left = left.map(|n| n - 1);
        }
        Ok(E::Map(v))
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<E, A::Error> {
        use de::VariantAccess;
        let (k, a) = a.variant_seed(Script { hint: 29, ..Script::any() })?;
        let inside = Script { hint: self.inner, ..self };
        let content = match self.style {
            0 => {
                a.unit_variant()?;
                E::Unit
            }
            1 => a.newtype_variant_seed(self.inside())?,
            2 => a.tuple_variant(2, inside)?,
            _ => a.struct_variant(&FIELDS, Script { style: 0, ..inside })?,
        };
        Ok(E::Enum(Box::new(k), Box::new(content)))
    }
}

/// How a request must end.
#[derive(Clone, Copy, PartialEq)]
enum Must {
    Succeed,
    Fail,
    Open,
}

fn join(v: impl Iterator<Item = Must>) -> Must {
    let mut r = Must::Succeed;
    for x in v {
        match x {
            Must::Fail => return Must::Fail,
            Must::Open => r = Must::Open,
            Must::Succeed => {}
        }
    }
    r
}

/// Whether the kind asked for is the kind of the item.
fn fits(m: &M, h: &str) -> bool {
    let num = |lo: i128, hi: i128| match m {
        M::U(n) => (*n as i128) <= hi,
        M::N(n) => -1 - (*n as i128) >= lo,
        _ => false,
    };
    match h {
        "any" => true,
        "bool" => matches!(m, M::S(20 | 21)),
        "i8" => num(-128, 127),
        "i16" => num(-32768, 32767),
        "i32" => num(i32::MIN as i128, i32::MAX as i128),
        "i64" => num(i64::MIN as i128, i64::MAX as i128),
        "i128" => num(i128::MIN, i128::MAX),
        "u8" => num(0, 255),
        "u16" => num(0, 65535),
        "u32" => num(0, u32::MAX as i128),
        "u64" => num(0, u64::MAX as i128),
        "u128" => matches!(m, M::B(b) if b.len() <= 16 && b.first() != Some(&0)),
        "char" => matches!(m, M::U(n) if u32::try_from(*n).is_ok_and(|n| char::from_u32(n).is_some())),
        "str" | "string" | "identifier" => matches!(m, M::T(_)),
        "bytes" | "byte_buf" => matches!(m, M::B(_)),
        "unit" | "unit_struct" => *m == NULL,
        "newtype_struct" | "seq" | "tuple" | "tuple_struct" => matches!(m, M::A(_)),
        "map" | "struct" => matches!(m, M::Map(_)),
        "option" => *m != M::S(23),
        "enum" => matches!(m, M::T(_)) || matches!(m, M::Map(e) if e.len() == 1),
        "ignored_any" => true,
        _ => false,
    }
}

fn huge(m: &M) -> bool {
    matches!(m, M::N(n) if *n > i64::MAX as u64)
}

/// How the request must end on the item.
fn must(m: &M, s: Script) -> Must {
    let h = HINTS[s.hint as usize];
    if let M::Tag(..) = m {
        return if h == "ignored_any" { Must::Open } else { Must::Fail };
    }
    match h {
        "option" if *m == NULL => return Must::Succeed,
        "option" if *m == M::S(23) => return Must::Open,
        "option" => return must(m, s.inside()),
        "enum" => {
            let (k, v) = match m {
                M::T(_) => (m.clone(), None),
                M::Map(e) if e.len() == 1 => (e[0].0.clone(), Some(&e[0].1)),
                _ => return Must::Fail,
            };
            let name = match k {
                M::T(_) => Must::Succeed,
                _ => match must(&k, Script { hint: 29, ..Script::any() }) {
                    Must::Fail => Must::Fail,
                    _ => Must::Open,
                },
            };
            let inside = Script { hint: s.inner, ..s };
            let content = match (s.style, v) {
                (0, None) => Must::Succeed,
                (0, Some(m)) if *m == NULL => Must::Succeed,
                (0, Some(M::S(23))) => Must::Open,
                (0, Some(_)) => Must::Fail,
                (_, None) => Must::Open,
                (1, Some(m)) => must(m, s.inside()),
                (2, Some(m)) => must_content(m, "tuple", inside),
                (_, Some(m)) => must_content(m, "struct", Script { style: 0, ..inside }),
            };
            return join([name, content].into_iter());
        }
        _ => {}
    }
    let own = if fits(m, h) && !(h == "ignored_any" && huge(m)) { Must::Succeed } else { Must::Open };
    let rest = match m {
        M::A(a) => {
            // Elements nobody took must not be lost.
            if s.limit() < a.len() {
                if own == Must::Succeed && h != "ignored_any" { Must::Fail } else { Must::Open }
            } else {
                join(a.iter().map(|m| must(m, s.inside())))
            }
        }
        M::Map(e) => {
            let n = e.len().min(s.limit());
            let taken = join(e[..n].iter().map(|(k, v)| {
                let v = if s.style == 2 { ignored(v) } else { must(v, s.inside()) };
                join([must(k, s.inside()), v].into_iter())
            }));
            if n < e.len() { join([taken, Must::Open].into_iter()) } else { taken }
        }
        _ => Must::Succeed,
    };
    match (own, rest) {
        // Whether an unsuitable request visits what is inside is not said.
        (Must::Open, Must::Fail) => Must::Open,
        _ if h == "ignored_any" && rest == Must::Fail => Must::Open,
        (a, b) => join([a, b].into_iter()),
    }
}

fn ignored(m: &M) -> Must {
    fn plain(m: &M) -> bool {
        match m {
            M::Tag(..) => false,
            M::A(a) => a.iter().all(plain),
            M::Map(e) => e.iter().all(|(k, v)| plain(k) && plain(v)),
            m => !huge(m),
        }
    }
    if plain(m) { Must::Succeed } else { Must::Open }
}

/// As the content of a variant.
fn must_content(m: &M, h: &str, s: Script) -> Must {
    let at = HINTS.iter().position(|x| *x == h).unwrap() as u8;
    must(m, Script { hint: at, ..s })
}

/// Whether what was seen is the item.
fn seen(m: &M, s: Script, e: &E) -> bool {
    let h = HINTS[s.hint as usize];
    let plain = || match (m, e) {
        (M::U(n), E::Num(x)) => *x == *n as i128,
        (M::U(n), E::Big(x)) => *x == *n as u128,
        (M::N(n), E::Num(x)) => *x == -1 - *n as i128,
        (M::B(b), E::Bytes(x)) => b == x,
        (M::T(s), E::Str(x)) => s == x,
        (M::S(20), E::Bool(false)) | (M::S(21), E::Bool(true)) => true,
        (M::S(22 | 23), E::Unit | E::None) => true,
        (M::A(a), E::Seq(v)) => v.len() == a.len() && a.iter().zip(v).all(|(m, e)| seen(m, s.inside(), e)),
        (M::Map(a), E::Map(v)) => {
            v.len() == a.len().min(s.limit()) && a.iter().zip(v).all(|((k, x), (y, z))| seen(k, s.inside(), y) && if s.style == 2 { *z == E::Ignored } else { seen(x, s.inside(), z) })
        }
        _ => false,
    };
    match h {
        "char" => match (m, e) {
            (M::U(n), E::Char(c)) => *c as u64 == *n,
            _ => plain(),
        },
        "u128" => match (m, e) {
            (M::B(b), E::Big(n)) => b.len() <= 32 && b.iter().fold(0u128, |a, x| a << 8 | *x as u128) == *n && b.iter().rev().skip(16).all(|x| *x == 0),
            _ => plain(),
        },
        "option" => match e {
            E::None => matches!(m, M::S(22 | 23)),
            E::Some(e) => *m != NULL && seen(m, s.inside(), e),
            E::Unit => *m == M::S(23),
            _ => false,
        },
        "newtype_struct" => match (m, e) {
            (M::A(a), E::Newtype(e)) => a.len() == 1 && seen(&a[0], s.inside(), e),
            _ => plain(),
        },
        "enum" => {
            let E::Enum(k, c) = e else { return false };
            let (name, v) = match m {
                M::T(_) => (m, &NULL),
                M::Map(e) if e.len() == 1 => (&e[0].0, &e[0].1),
                _ => return false,
            };
            let inside = Script { hint: s.inner, ..s };
            seen(name, Script { hint: 29, ..Script::any() }, k)
                && match s.style {
                    0 => matches!(v, M::S(22 | 23)) && **c == E::Unit,
                    1 => seen(v, s.inside(), c),
                    2 => seen(v, Script { hint: 24, ..inside }, c),
                    _ => seen(v, Script { hint: 27, style: 0, ..inside }, c),
                }
        }
        "ignored_any" => *e == E::Unit || plain(),
        _ => plain(),
    }
}

thread_local! {
    static SCRIPT: std::cell::Cell<Option<Script>> = const { std::cell::Cell::new(None) };
}
#[derive(Debug)]
struct Seen(E);
impl<'de> Deserialize<'de> for Seen {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Seen, D::Error> {
        SCRIPT.with(|c| c.get()).unwrap().deserialize(d).map(Seen)
    }
}

fn hints_case(arg: &str, b: &[u8]) -> Out {
    let s = Script::parse(arg);
    let m = bytes_m(b);
    SCRIPT.with(|c| c.set(Some(s)));
    let mut all = vec![(m.clone(), no_panic(|| cs::from_value::<Seen>(to_value(&m)))?, "from_value")];
    if let Some(b) = m.enc().filter(|_| m.depth() <= 64) {
        all.push((m.canon(), no_panic(|| cs::from_slice::<Seen>(&b))?, "from_slice"));
    }
    let mut class = "";
    for (m, r, what) in all {
        let w = must(&m, s);
        let say = |r: &dyn fmt::Debug| format!("{what} of {} {} gives {}", show(&m), s.describe(), short(r));
        class = match (&r, w) {
            (Err(e), _) if e.to_string().contains(BAD) => return Err(say(&r)),
            (Ok(Seen(e)), Must::Succeed | Must::Open) if seen(&m, s, e) => "seen",
            (Err(_), Must::Fail) => "refused",
            (Err(_), Must::Open) => "refused, open",
            _ => return Err(say(&r)),
        };
    }
    Ok(class)
}

/// Names of any length as variants, fields and enum identifiers, from run-time text.
fn names_case(_: &str, b: &[u8]) -> Out {
    // Static by interface.
    let name: &'static str = Box::leak(String::from_utf8(b.to_vec()).unwrap().into_boxed_str());
    struct N(&'static str, u8);
    /// Text handed over character by character.
    struct Pieces(&'static str);
    impl fmt::Display for Pieces {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            self.0.chars().try_for_each(|c| write!(f, "{c}"))
        }
    }
    impl Serialize for N {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            use ser::*;
            match self.1 {
                0 => s.serialize_unit_variant("E", 0, self.0),
                1 => s.serialize_newtype_variant("E", 0, self.0, &1u8),
                2 => {
                    let mut q = s.serialize_tuple_variant("E", 0, self.0, 1)?;
                    q.serialize_field(&1u8)?;
                    q.end()
                }
                3 => {
                    let mut q = s.serialize_struct_variant("E", 0, self.0, 1)?;
                    q.serialize_field(self.0, &1u8)?;
                    q.end()
                }
                4 => {
                    let mut q = s.serialize_struct(self.0, 2)?;
                    q.serialize_field("x", &2u8)?;
                    q.serialize_field(self.0, &1u8)?;
                    q.end()
                }
                5 => s.serialize_unit_struct(self.0),
                6 => s.collect_str(self.0),
                _ => s.collect_str(&Pieces(self.0)),
            }
        }
    }
    let k = || t(name);
    for op in 0..8 {
        let m = match op {
            0 | 6 | 7 => k(),
            1 => M::Map(vec![(k(), M::U(1))]),
            2 => M::Map(vec![(k(), M::A(vec![M::U(1)]))]),
            3 => M::Map(vec![(k(), M::Map(vec![(k(), M::U(1))]))]),
            4 => M::Map(vec![(t("x"), M::U(2)), (k(), M::U(1))]),
            _ => NULL,
        };
        match (cs::to_vec(&N(name, op)), m.enc()) {
            (Ok(b), Some(w)) if b == w => {}
            (Err(cs::Error::ByteEncoder(_)), None) => continue,
            (r, w) => return Err(format!("name {name:?}, call {op}: {r:?} instead of {w:?}")),
        }
        if op < 4 {
            SCRIPT.with(|c| c.set(Some(Script { hint: 28, inner: 0, take: 255, style: op })));
            let s = SCRIPT.with(|c| c.get()).unwrap();
            match cs::from_value::<Seen>(to_value(&m)) {
                Ok(Seen(e)) if seen(&m, s, &e) => {}
                r => return Err(format!("name {name:?} in {} gives {r:?}", show(&m))),
            }
        }
    }
    Ok("kept")
}

/// Long sequences and maps through each of the calls.
fn lengths_case(arg: &str, b: &[u8]) -> Out {
    let n = u32::from_be_bytes(b.try_into().unwrap()) as usize;
    let op: u8 = arg.parse().unwrap();
    struct Long(u8, usize);
    impl Serialize for Long {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            use ser::*;
            let n = self.1;
            match self.0 {
                0 | 1 => {
                    let mut q = s.serialize_seq((self.0 == 0).then_some(n))?;
                    (0..n).try_for_each(|x| q.serialize_element(&x))?;
                    q.end()
                }
                2 => s.collect_seq(0..n),
                3 => {
                    let mut q = s.serialize_tuple(n)?;
                    (0..n).try_for_each(|x| q.serialize_element(&x))?;
                    q.end()
                }
                4 => {
                    let mut q = s.serialize_tuple_struct("Named", n)?;
                    (0..n).try_for_each(|x| q.serialize_field(&x))?;
                    q.end()
                }
                5 => {
                    let mut q = s.serialize_tuple_variant("E", 0, VARIANT, n)?;
                    (0..n).try_for_each(|x| q.serialize_field(&x))?;
                    q.end()
                }
                6 | 7 => {
                    let mut q = s.serialize_map((self.0 == 6).then_some(n))?;
                    // Back to front.
                    for x in (0..n).rev() {
                        if self.0 == 6 {
                            q.serialize_entry(&x, &(n - x))?;
                        } else {
                            q.serialize_key(&x)?;
                            q.serialize_value(&(n - x))?;
                        }
                    }
                    q.end()
                }
                8 => s.collect_map((0..n).map(|x| (x, n - x))),
                9 => s.collect_str(&"é".repeat(n)),
                10 => s.serialize_bytes(&vec![7; n]),
                _ => s.collect_seq((0..n).map(|x| (x, Pad(x % 3)))),
            }
        }
    }
    #[derive(serde::Serialize)]
    struct Pad(usize);
    let u = |x: usize| M::U(x as u64);
    let nums = || M::A((0..n).map(u).collect());
    let m = match op {
        0..=4 => nums(),
        5 => M::Map(vec![(t(VARIANT), nums())]),
        6..=8 => M::Map((0..n).map(|x| (u(x), u(n - x))).collect()),
        9 => t(&"é".repeat(n)),
        10 => M::B(vec![7; n]),
        _ => M::A((0..n).map(|x| M::A(vec![u(x), M::A(vec![u(x % 3)])])).collect()),
    };
    let b = cs::to_vec(&Long(op, n)).map_err(|e| e.to_string())?;
    if Some(&b) != m.enc().as_ref() {
        return Err(format!("call {op} with length {n} gives {}", show_hex(&b)));
    }
    let hint = ["seq", "seq", "seq", "tuple", "tuple_struct", "enum", "map", "map", "map", "string", "byte_buf", "any"][op as usize];
    let s = Script { hint: HINTS.iter().position(|x| *x == hint).unwrap() as u8, inner: 0, take: 255, style: if op == 5 { 2 } else { op % 2 } };
    SCRIPT.with(|c| c.set(Some(s)));
    match no_panic(|| cs::from_slice::<Seen>(&b))? {
        Ok(Seen(e)) if seen(&m.canon(), s, &e) => Ok("kept"),
        r => Err(format!("call {op} with length {n} is read back as {}", short(&r))),
    }
}

/// Call trees of exactly `n` nodes, by size.
fn trees(n: usize, leaves: &[u8], ops: &[u8]) -> Vec<Vec<T>> {
    let mut by: Vec<Vec<T>> = vec![vec![], leaves.iter().map(|op| T { op: *op, kids: vec![] }).collect()];
    by[1].extend(ops.iter().filter(|o| **o >= SEQ_LEN).map(|op| T { op: *op, kids: vec![] }));
    for size in 2..=n {
        // Lists of children with that many nodes in all.
        let mut lists: Vec<Vec<T>> = vec![];
        fn fill(by: &[Vec<T>], left: usize, cur: &mut Vec<T>, out: &mut Vec<Vec<T>>) {
            if left == 0 {
                out.push(cur.clone());
                return;
            }
            if cur.len() == 4 {
                return;
            }
            for k in 1..=left.min(by.len() - 1) {
                for x in &by[k] {
                    cur.push(x.clone());
                    fill(by, left - k, cur, out);
                    cur.pop();
                }
            }
        }
        fill(&by, size - 1, &mut vec![], &mut lists);
        let mut v = vec![];
        for op in ops {
            for kids in &lists {
                let ok = match *op {
                    SOME..=NEWTYPE_VARIANT => kids.len() == 1,
                    MAP_LEN..=MAP_MIXED => kids.len() % 2 == 0,
                    _ => true,
                };
                if ok {
                    v.push(T { op: *op, kids: kids.clone() });
                }
            }
        }
        by.push(v);
    }
    by
}

fn explore(ctx: &Ctx, p: &Prop) {
    let e = p.engine("calls");
    let all_leaves: Vec<u8> = (0..LEAVES).collect();
    let all_ops: Vec<u8> = (SOME..=NEWTYPE_VARIANT).chain(SEQ_LEN..=MAP_MIXED).collect();
    let few_leaves: Vec<u8> = vec![1, 2, 9, 18, 21, 24, 28];
    let few_ops: Vec<u8> = vec![SOME, NEWTYPE, NEWTYPE_VARIANT, SEQ, TUPLE_VARIANT, STRUCT_SKIP, STRUCT_VARIANT, MAP_MIXED];
    let mut plans = vec![(3, all_leaves.clone(), all_ops.clone()), (4, few_leaves.clone(), all_ops.clone()), (5, vec![2, 18, 21], few_ops.clone())];
    if ctx.thorough {
        plans.push((4, all_leaves, all_ops));
        plans.push((5, few_leaves[..5].to_vec(), few_ops.clone()));
        plans.push((6, vec![18, 21], few_ops[2..].to_vec()));
    }
    for (n, leaves, ops) in plans {
        let ts: Vec<T> = trees(n, &leaves, &ops).into_iter().flatten().collect();
        ctx.bound(format!("calls: all {} trees of up to {n} calls of the Serializer interface over {} scalar calls and {} compound ones, at most 4 children each, written and read back by the matching Deserializer calls", ts.len(), leaves.len(), ops.len()));
        ctx.par(ts.len().div_ceil(1024), true, |w, i| {
            for x in &ts[i * 1024..(i * 1024 + 1024).min(ts.len())] {
                let mut b = vec![];
                x.bytes(&mut b);
                w.case(&e, "", &b);
            }
        });
    }
    let e = p.engine("hints");
    let n = if ctx.thorough { 4 } else { 3 };
    let mut ms: Vec<M> = valgen::keys();
    ms.extend(valgen::leaves());
    ms.extend(valgen::trees(n, &valgen::small_leaves(), &[1]));
    for k in 0..=5u64 {
        ms.push(M::A((0..k).map(M::U).collect()));
        ms.push(M::A((0..k).map(|x| M::B(vec![1; x as usize])).collect()));
        ms.push(M::Map((0..k).map(|x| (M::U(x), t("v"))).collect()));
        ms.push(M::Map((0..k).map(|x| (t(FIELDS[x as usize % 4].get(..1).unwrap_or("")), M::U(x))).collect()));
    }
    let contents: Vec<M> = ms.iter().filter(|m| m.depth() < 3).cloned().collect();
    ms.extend(contents.into_iter().map(|m| M::Map(vec![(t("a"), m)])));
    ms.sort();
    ms.dedup();
    let ms: Vec<Vec<u8>> = ms.iter().map(M::enc_raw).collect();
    ctx.bound(format!("hints: {} data items, requested by each of the {} Deserializer methods with each of them inside, taking all or at most 0 to 3 elements, entries whole, in parts or with ignored values, variants as each of the four kinds", ms.len(), HINTS.len()));
    ctx.par(ms.len(), true, |w, i| {
        for hint in 0..HINTS.len() as u8 {
            for inner in 0..HINTS.len() as u8 {
                for style in 0..4 {
                    if style == 3 && HINTS[hint as usize] != "enum" {
                        continue;
                    }
                    let s = Script { hint, inner, take: 255, style };
                    w.case(&e, &s.name(), &ms[i]);
                    if inner == 0 || inner == 19 || w.ctx.thorough {
                        for take in 0..4 {
                            w.case(&e, &Script { take, ..s }.name(), &ms[i]);
                        }
                    }
                }
            }
        }
    });
    let e = p.engine("names");
    let mut names = valgen::texts();
    names.extend((0..300).map(|n| "n".repeat(n)));
    names.extend(["é".repeat(12), "水".repeat(8), "x".into(), "Variant".into()]);
    ctx.bound(format!("names: {} names of variants and fields (every length up to 299, beyond ASCII) in eight calls", names.len()));
    ctx.par(names.len(), true, |w, i| w.case(&e, "", names[i].as_bytes()));
    let e = p.engine("lengths");
    let mut ns: Vec<u32> = (0..=if ctx.thorough { 2100 } else { 530 }).collect();
    for k in if ctx.thorough { 10..18 } else { 12..17 } {
        ns.extend((1 << k) - 2..=(1 << k) + 2);
    }
    ns.sort();
    ns.dedup();
    ctx.bound(format!("lengths: {} lengths (all up to {}, around powers of two to {}) of sequences, tuples, maps and strings through twelve calls", ns.len(), if ctx.thorough { 2100 } else { 530 }, ns.last().unwrap()));
    ctx.par(ns.len(), true, |w, i| {
        for op in 0..12 {
            w.case(&e, &op.to_string(), &ns[i].to_be_bytes());
        }
    });
}
