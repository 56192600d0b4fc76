//! Reference semantics of typed encoding and decoding, over dynamic data and type descriptions.
use std::sync::Arc;

use mccore::explore::step;
use mccore::model::*;

use crate::own::{self, Call};

/// A value of some Rust type.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum D {
    Int(i128),
    Big(u128),
    Bool(bool),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    /// Vectors, arrays, tuples, struct fields, and sets (in their iteration order, hashed ones
    /// sorted).
    Seq(Vec<D>),
    /// Maps, sorted.
    Map(Vec<(D, D)>),
    Unit,
    None,
    Some(Box<D>),
    Val(M),
    Var(usize, Vec<D>),
}

impl D {
    pub fn seq(&self) -> &[D] {
        match self {
            D::Seq(v) => v,
            _ => panic!("not a sequence: {self:?}"),
        }
    }
}

/// Sets of decoding errors.
pub type DErrs = u8;
pub const PARSE: DErrs = 1;
pub const TYPE: DErrs = 2;
pub const MISSING: DErrs = 4;
pub const UNKNOWN: DErrs = 8;
pub const SIZE: DErrs = 16;
pub const ANY: DErrs = 31;

/// What decoding may yield.
#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Ok(D),
    /// One of these errors.
    Err(DErrs),
    /// Not specified: any outcome short of a panic.
    Free,
}

pub struct Codec {
    pub wire: Ty,
    pub enc: fn(&D) -> D,
    pub dec: fn(&D) -> R,
}

#[derive(Clone)]
pub struct FieldTy {
    pub key: M,
    pub ty: Ty,
    pub optional: bool,
    pub skip: bool,
    pub skip_if: Option<fn(&D) -> bool>,
    pub with: Option<Arc<Codec>>,
}

pub fn fld(key: M, ty: Ty) -> FieldTy {
    FieldTy { key, ty, optional: false, skip: false, skip_if: None, with: None }
}
impl FieldTy {
    pub fn opt(mut self) -> Self {
        self.optional = true;
        self
    }
    pub fn skipped(mut self) -> Self {
        self.skip = true;
        self
    }
    pub fn skip_when(mut self, f: fn(&D) -> bool) -> Self {
        self.skip_if = Some(f);
        self
    }
    pub fn coded(mut self, c: Codec) -> Self {
        self.with = Some(Arc::new(c));
        self
    }
}
/// The default made of the fields' defaults.
pub fn dfields(fields: &[FieldTy]) -> Option<D> {
    Some(D::Seq(fields.iter().map(|f| std_default(&f.ty)).collect()))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape {
    Unit,
    Tuple,
    Named,
}

pub struct StructTy {
    pub name: String,
    pub shape: Shape,
    pub transparent: bool,
    pub as_array: bool,
    pub allow_unknown: bool,
    pub fields: Vec<FieldTy>,
    /// Value used for null and undefined, if any.
    pub default: Option<D>,
}

pub struct VariantTy {
    pub key: M,
    pub discr: Option<M>,
    pub shape: Shape,
    pub newtype: bool,
    pub as_array: bool,
    pub as_struct: bool,
    pub skip: bool,
    pub embed: bool,
    pub allow_unknown: bool,
    pub missing: bool,
    pub fields: Vec<FieldTy>,
}

pub struct EnumTy {
    pub name: String,
    pub tag: Option<M>,
    pub untagged: bool,
    pub default: Option<D>,
    /// Some variant of an embedded enum has the form of one of the parent's own.
    pub overlap: bool,
    pub variants: Vec<VariantTy>,
}

#[derive(Clone)]
pub enum Ty {
    Uint(u32),
    Int(u32),
    U128,
    Bool,
    Char,
    Str,
    Bytes,
    /// serde_bytes::ByteBuf.
    Buf,
    ByteArr(usize),
    Seq(Arc<Ty>),
    Arr(Arc<Ty>, usize),
    Tuple(Vec<Ty>),
    Opt(Arc<Ty>),
    /// Element type, and whether it is a hashed set.
    Set(Arc<Ty>, bool),
    Map(Arc<Ty>, Arc<Ty>),
    Unit,
    Val,
    /// A type with hand-written implementations of a kind.
    Own(u8),
    Struct(Arc<StructTy>),
    Enum(Arc<EnumTy>),
    /// A type inside itself.
    Rec(fn() -> Ty),
}

/// What a type inside itself is.
pub fn unfold(t: fn() -> Ty) -> Ty {
    thread_local!(static SEEN: std::cell::RefCell<std::collections::HashMap<usize, Ty>> = Default::default());
    if let Some(ty) = SEEN.with(|s| s.borrow().get(&(t as usize)).cloned()) {
        return ty;
    }
    let ty = t();
    SEEN.with(|s| s.borrow_mut().insert(t as usize, ty.clone()));
    ty
}

pub fn in_range(ty: &Ty, n: i128) -> bool {
    match ty {
        Ty::Uint(b) => n >= 0 && n < 1i128 << b,
        Ty::Int(128) => true,
        Ty::Int(b) => n >= -(1i128 << (b - 1)) && n < 1i128 << (b - 1),
        _ => unreachable!(),
    }
}

pub fn m_int(m: &M) -> Option<i128> {
    match m {
        M::U(n) => Some(*n as i128),
        M::N(n) => Some(-1 - *n as i128),
        _ => None,
    }
}

fn big_bytes(n: u128) -> Vec<u8> {
    let mut v = vec![];
    let mut n = n;
    while n > 0 {
        v.insert(0, (n & 0xff) as u8);
        n >>= 8;
    }
    v
}

/// Encoding, with map entries in no particular order.
pub fn enc(ty: &Ty, d: &D) -> M {
    step(1);
    match (ty, d) {
        (Ty::Uint(_) | Ty::Int(_), D::Int(n)) => int(*n),
        (Ty::U128, D::Big(n)) => M::B(big_bytes(*n)),
        (Ty::Bool, D::Bool(b)) => if *b { TRUE } else { FALSE },
        (Ty::Char, D::Char(c)) => M::U(*c as u32 as u64),
        (Ty::Str, D::Str(s)) => M::T(s.clone()),
        (Ty::Bytes | Ty::Buf | Ty::ByteArr(_), D::Bytes(b)) => M::B(b.clone()),
        (Ty::Seq(t) | Ty::Arr(t, _), D::Seq(v)) => M::A(v.iter().map(|d| enc(t, d)).collect()),
        (Ty::Set(t, hashed), D::Seq(v)) => {
            let mut v: Vec<M> = v.iter().map(|d| enc(t, d)).collect();
            if *hashed {
                v.sort_by_cached_key(|m| m.enc());
            }
            M::A(v)
        }
        (Ty::Tuple(ts), D::Seq(v)) => M::A(ts.iter().zip(v).map(|(t, d)| enc(t, d)).collect()),
        (Ty::Opt(_), D::None) => NULL,
        (Ty::Opt(t), D::Some(d)) => enc(t, d),
        (Ty::Map(k, v), D::Map(m)) => M::Map(m.iter().map(|(a, b)| (enc(k, a), enc(v, b))).collect()),
        (Ty::Unit, D::Unit) => NULL,
        (Ty::Val, D::Val(m)) => m.clone(),
        (Ty::Own(k), D::Val(m)) => {
            own::want(|| Call::Encode(*k, m.canon()));
            m.clone()
        }
        (Ty::Struct(s), D::Seq(v)) => enc_struct(s, v),
        (Ty::Enum(e), D::Var(i, v)) => enc_variant(e, *i, v),
        (Ty::Rec(t), d) => enc(&unfold(*t), d),
        _ => panic!("type and data do not fit: {d:?}"),
    }
}

fn enc_field(f: &FieldTy, d: &D) -> M {
    match &f.with {
        Some(c) => enc(&c.wire, &(c.enc)(d)),
        None => enc(&f.ty, d),
    }
}

/// Whether a map layout leaves the field out.
pub fn left_out(f: &FieldTy, d: &D) -> bool {
    f.optional
        && match &f.skip_if {
            Some(p) => p(d),
            None => absent_field(f, d),
        }
}

fn absent_field(f: &FieldTy, d: &D) -> bool {
    match &f.with {
        Some(c) => absent(&c.wire, &(c.enc)(d)),
        None => absent(&f.ty, d),
    }
}

fn enc_fields(fields: &[FieldTy], vals: &[D], array: bool) -> M {
    if array {
        return M::A(fields.iter().zip(vals).filter(|(f, _)| !f.skip).map(|(f, d)| enc_field(f, d)).collect());
    }
    let mut out = vec![];
    for (f, d) in fields.iter().zip(vals) {
        if f.skip {
            continue;
        }
        if left_out(f, d) {
            continue;
        }
        out.push((f.key.clone(), enc_field(f, d)));
    }
    M::Map(out)
}

fn enc_struct(s: &StructTy, v: &[D]) -> M {
    if s.shape == Shape::Unit {
        return NULL;
    }
    if s.transparent {
        return enc_field(&s.fields[0], &v[0]);
    }
    enc_fields(&s.fields, v, s.shape == Shape::Tuple || s.as_array)
}

fn enc_variant(e: &EnumTy, i: usize, v: &[D]) -> M {
    let var = &e.variants[i];
    if var.skip {
        return UNDEF;
    }
    if var.embed {
        return enc_field(&var.fields[0], &v[0]);
    }
    if var.shape == Shape::Unit && !var.as_struct && e.tag.is_none() {
        return var.discr.clone().unwrap_or_else(|| var.key.clone());
    }
    let inner = if var.newtype {
        enc_field(&var.fields[0], &v[0])
    } else if var.shape == Shape::Unit {
        M::Map(vec![])
    } else {
        enc_fields(&var.fields, v, var.shape == Shape::Tuple || var.as_array)
    };
    if e.untagged || var.missing {
        return inner;
    }
    match &e.tag {
        Some(t) => {
            let M::Map(mut m) = inner else { panic!("tagged content is not a map") };
            m.push((t.clone(), var.key.clone()));
            M::Map(m)
        }
        None => M::Map(vec![(var.key.clone(), inner)]),
    }
}

/// Whether an optional field holding this value is left out.
pub fn absent(ty: &Ty, d: &D) -> bool {
    match (ty, d) {
        (Ty::Struct(s), D::Seq(v)) => {
            if s.shape == Shape::Unit {
                true
            } else if s.transparent {
                absent_field(&s.fields[0], &v[0])
            } else {
                own::aside(|| enc_struct(s, v)) == M::Map(vec![])
            }
        }
        (Ty::Rec(t), d) => absent(&unfold(*t), d),
        (Ty::Own(k), D::Val(m)) => own::left_out_of(*k, m),
        _ => empty(ty, d),
    }
}

/// The empty value of a type.
fn empty(ty: &Ty, d: &D) -> bool {
    match (ty, d) {
        (Ty::Tuple(ts), D::Seq(v)) => ts.iter().zip(v).all(|(t, d)| empty(t, d)),
        (Ty::Rec(t), d) => empty(&unfold(*t), d),
        (Ty::Own(k), D::Val(m)) => *k == 1 && own::left_out_of(1, m),
        (Ty::Arr(..) | Ty::ByteArr(_) | Ty::Struct(_) | Ty::Enum(_), _) => false,
        (_, D::Int(n)) => *n == 0,
        (_, D::Big(n)) => *n == 0,
        (_, D::Bool(b)) => !b,
        (_, D::Char(c)) => *c == '\0',
        (_, D::Str(s)) => s.is_empty(),
        (_, D::Bytes(b)) => b.is_empty(),
        (_, D::Seq(v)) => v.is_empty(),
        (_, D::Map(v)) => v.is_empty(),
        (_, D::Unit | D::None) => true,
        (_, D::Some(_)) => false,
        (_, D::Val(m)) => *m == NULL || *m == UNDEF,
        (_, D::Var(..)) => false,
    }
}

/// `Default::default()` of a type, as used for skipped fields.
pub fn std_default(ty: &Ty) -> D {
    match ty {
        Ty::Struct(s) => s.default.clone().unwrap_or_else(|| D::Seq(s.fields.iter().map(|f| std_default(&f.ty)).collect())),
        Ty::Enum(e) => e.default.clone().unwrap_or(D::Var(0, vec![])),
        Ty::Arr(t, n) => D::Seq(vec![std_default(t); *n]),
        Ty::Tuple(ts) => D::Seq(ts.iter().map(std_default).collect()),
        Ty::Rec(t) => std_default(&unfold(*t)),
        Ty::Own(k) => D::Val(own::own_default(*k)),
        _ => match default(ty) {
            R::Ok(d) => d,
            _ => panic!("no default"),
        },
    }
}

/// Decoding of null, undefined and missing data.
pub fn default(ty: &Ty) -> R {
    R::Ok(match ty {
        Ty::Uint(_) | Ty::Int(_) => D::Int(0),
        Ty::U128 => D::Big(0),
        Ty::Bool => D::Bool(false),
        Ty::Char => D::Char('\0'),
        Ty::Str => D::Str(String::new()),
        Ty::Bytes | Ty::Buf => D::Bytes(vec![]),
        Ty::ByteArr(n) => D::Bytes(vec![0; *n]),
        Ty::Seq(_) | Ty::Set(..) => D::Seq(vec![]),
        Ty::Map(..) => D::Map(vec![]),
        Ty::Arr(..) => return R::Err(MISSING),
        Ty::Tuple(ts) => return all(ts.iter().map(default)).map(D::Seq),
        Ty::Opt(_) => D::None,
        Ty::Unit => D::Unit,
        Ty::Val => D::Val(NULL),
        Ty::Own(k) => {
            own::want(|| Call::Default(*k));
            match own::default_of(*k) {
                Ok(m) => D::Val(m),
                Err(e) => return R::Err(e),
            }
        }
        Ty::Struct(s) => match &s.default {
            Some(d) => d.clone(),
            None => return R::Err(MISSING),
        },
        Ty::Enum(e) => match &e.default {
            Some(d) => d.clone(),
            None => return R::Err(MISSING),
        },
        Ty::Rec(t) => return default(&unfold(*t)),
    })
}

/// Combination of the outcomes of parts: unspecified if any is, else any of the errors.
pub enum Parts {
    Ok(Vec<D>),
    Err(DErrs),
    Free,
}
impl Parts {
    pub fn map(self, f: impl FnOnce(Vec<D>) -> D) -> R {
        match self {
            Parts::Ok(v) => R::Ok(f(v)),
            Parts::Err(e) => R::Err(e),
            Parts::Free => R::Free,
        }
    }
}
pub fn all(it: impl Iterator<Item = R>) -> Parts {
    let mut v = vec![];
    let mut errs = 0;
    let mut free = false;
    for r in it {
        match r {
            R::Ok(d) => v.push(d),
            R::Err(e) => errs |= e,
            R::Free => free = true,
        }
    }
    if free && errs == 0 {
        Parts::Free
    } else if errs != 0 {
        // A free part may fail first with any error, but it cannot turn the whole into a success.
        Parts::Err(if free { ANY } else { errs })
    } else {
        Parts::Ok(v)
    }
}

pub fn is_null(m: &M) -> bool {
    *m == NULL || *m == UNDEF
}

/// Decoding at the top level and of a struct field.
pub fn dec_default(ty: &Ty, m: &M) -> R {
    if is_null(m) && !matches!(ty, Ty::Own(3)) {
        default(ty)
    } else {
        dec(ty, m)
    }
}

/// Decoding of anything else.
pub fn dec(ty: &Ty, m: &M) -> R {
    step(1);
    match ty {
        Ty::Uint(_) => match m {
            M::U(n) if in_range(ty, *n as i128) => R::Ok(D::Int(*n as i128)),
            M::U(_) => R::Err(SIZE),
            // An integer, but never one of an unsigned type.
            M::N(_) => R::Err(SIZE | TYPE),
            _ => R::Err(TYPE),
        },
        Ty::Int(_) => match m_int(m) {
            Some(n) if in_range(ty, n) => R::Ok(D::Int(n)),
            Some(_) => R::Err(SIZE),
            None => R::Err(TYPE),
        },
        Ty::U128 => match m {
            M::B(b) if b.len() <= 16 => R::Ok(D::Big(b.iter().fold(0, |a, b| a << 8 | *b as u128))),
            M::B(_) => R::Err(SIZE),
            _ => R::Err(TYPE),
        },
        Ty::Bool => match *m {
            FALSE => R::Ok(D::Bool(false)),
            TRUE => R::Ok(D::Bool(true)),
            _ => R::Err(TYPE),
        },
        Ty::Char => match m {
            M::U(n) => match u32::try_from(*n).ok().filter(|n| *n < 0xd800 || (0xe000..0x110000).contains(n)) {
                Some(c) => R::Ok(D::Char(char::from_u32(c).unwrap())),
                None => R::Err(ANY),
            },
            _ => R::Err(TYPE),
        },
        Ty::Str => match m {
            M::T(s) => R::Ok(D::Str(s.clone())),
            _ => R::Err(TYPE),
        },
        Ty::Bytes | Ty::Buf => match m {
            M::B(b) => R::Ok(D::Bytes(b.clone())),
            _ => R::Err(TYPE),
        },
        Ty::ByteArr(n) => match m {
            M::B(b) if b.len() == *n => R::Ok(D::Bytes(b.clone())),
            M::B(_) => R::Err(ANY),
            _ => R::Err(TYPE),
        },
        Ty::Seq(t) => match m {
            M::A(a) => all(a.iter().map(|m| dec(t, m))).map(D::Seq),
            _ => R::Err(TYPE),
        },
        Ty::Set(t, _) => match m {
            M::A(a) => all(a.iter().map(|m| dec(t, m))).map(|mut v| {
                v.sort();
                v.dedup();
                D::Seq(v)
            }),
            _ => R::Err(TYPE),
        },
        Ty::Arr(t, n) => match m {
            M::A(a) if a.len() == *n => all(a.iter().map(|m| dec(t, m))).map(D::Seq),
            M::A(_) => R::Err(ANY),
            _ => R::Err(TYPE),
        },
        Ty::Tuple(ts) => match m {
            M::A(a) if a.len() == ts.len() => all(ts.iter().zip(a).map(|(t, m)| dec(t, m))).map(D::Seq),
            M::A(_) => R::Err(ANY),
            _ => R::Err(TYPE),
        },
        Ty::Opt(t) => {
            if *m == NULL {
                R::Ok(D::None)
            } else {
                match dec(t, m) {
                    R::Ok(d) => R::Ok(D::Some(Box::new(d))),
                    r => r,
                }
            }
        }
        Ty::Map(k, v) => match m {
            M::Map(es) => {
                let ks = all(es.iter().map(|e| dec(k, &e.0)));
                let vs = all(es.iter().map(|e| dec(v, &e.1)));
                match (ks, vs) {
                    (Parts::Ok(a), Parts::Ok(b)) => {
                        let mut out: Vec<(D, D)> = a.into_iter().zip(b).collect();
                        out.sort();
                        // Which of several values of one key wins is not specified.
                        if out.windows(2).any(|w| w[0].0 == w[1].0) {
                            R::Free
                        } else {
                            R::Ok(D::Map(out))
                        }
                    }
                    (Parts::Err(a), Parts::Err(b)) => R::Err(a | b),
                    (Parts::Err(a), Parts::Ok(_)) | (Parts::Ok(_), Parts::Err(a)) => R::Err(a),
                    (Parts::Err(_), _) | (_, Parts::Err(_)) => R::Err(ANY),
                    _ => R::Free,
                }
            }
            _ => R::Err(TYPE),
        },
        Ty::Unit => {
            if is_null(m) {
                R::Ok(D::Unit)
            } else {
                R::Err(TYPE)
            }
        }
        Ty::Val => R::Ok(D::Val(m.clone())),
        Ty::Own(k) => {
            own::want(|| Call::Decode(*k, m.canon()));
            match own::decoded(*k, m) {
                Ok(m) => R::Ok(D::Val(m)),
                Err(e) => R::Err(e),
            }
        }
        Ty::Struct(s) => dec_struct(s, m),
        Ty::Enum(e) => dec_enum(e, m),
        Ty::Rec(t) => dec(&unfold(*t), m),
    }
}

fn dec_field(f: &FieldTy, m: &M) -> R {
    decode_field(f, m, dec_default)
}

fn decode_field(f: &FieldTy, m: &M, dec: fn(&Ty, &M) -> R) -> R {
    match &f.with {
        Some(c) => match dec(&c.wire, m) {
            R::Ok(d) => (c.dec)(&d),
            r => r,
        },
        None => dec(&f.ty, m),
    }
}

/// What a field is encoded as.
fn wire(f: &FieldTy) -> &Ty {
    match &f.with {
        Some(c) => &c.wire,
        None => &f.ty,
    }
}

fn dec_fields(fields: &[FieldTy], m: &M, array: bool, allow_unknown: bool) -> Parts {
    let wire: Vec<&FieldTy> = fields.iter().filter(|f| !f.skip).collect();
    if array {
        let a = match m {
            M::A(a) => a,
            _ => return Parts::Err(TYPE),
        };
        if a.len() < wire.len() {
            return Parts::Err(ANY);
        }
        if a.len() > wire.len() {
            return if allow_unknown { Parts::Free } else { Parts::Err(ANY) };
        }
        let mut it = a.iter();
        return all(fields.iter().map(|f| {
            if f.skip {
                R::Ok(std_default(&f.ty))
            } else {
                dec_field(f, it.next().unwrap())
            }
        }));
    }
    let es = match m {
        M::Map(es) => es,
        _ => return Parts::Err(TYPE),
    };
    let mut errs = 0;
    let mut free = false;
    for (i, (k, _)) in es.iter().enumerate() {
        if !wire.iter().any(|f| f.key == *k) {
            if !allow_unknown {
                errs |= UNKNOWN;
            }
        } else if es[..i].iter().any(|e| e.0 == *k) {
            if allow_unknown {
                free = true;
            } else {
                errs |= ANY;
            }
        }
    }
    if free {
        // Which of several values of one key counts is not specified, but one of them does.
        let some = |f: &FieldTy| {
            let mut vs = es.iter().filter(|(k, _)| *k == f.key).map(|e| &e.1).peekable();
            if vs.peek().is_none() {
                return !matches!(dec_field(f, &NULL), R::Err(_));
            }
            vs.any(|m| !matches!(dec_field(f, m), R::Err(_)))
        };
        return if wire.iter().all(|f| some(f)) { Parts::Free } else { Parts::Err(ANY) };
    }
    let parts = all(fields.iter().map(|f| {
        if f.skip {
            return R::Ok(std_default(&f.ty));
        }
        match es.iter().find(|e| e.0 == f.key) {
            Some((_, m)) => dec_field(f, m),
            None if reads_null(f) => R::Free,
            None => dec_field(f, &NULL),
        }
    }));
    match parts {
        Parts::Err(e) => Parts::Err(e | errs),
        Parts::Free if errs != 0 => Parts::Err(ANY),
        _ if errs != 0 => Parts::Err(errs),
        p => p,
    }
}

fn dec_struct(s: &StructTy, m: &M) -> R {
    if s.shape == Shape::Unit {
        return match m {
            _ if is_null(m) => R::Ok(D::Seq(vec![])),
            // A struct without known fields.
            M::Map(e) if e.is_empty() || s.allow_unknown => R::Free,
            _ => R::Err(TYPE | UNKNOWN),
        };
    }
    if s.transparent {
        if is_null(m) {
            // Not at the top level nor a field.
            let ty = wire(&s.fields[0]);
            if inner_own(ty) && own::aside(|| dec(ty, m) != dec_default(ty, m)) {
                return R::Free;
            }
            return match decode_field(&s.fields[0], m, dec) {
                R::Ok(d) if *m == NULL => R::Ok(D::Seq(vec![d])),
                _ => R::Free,
            };
        }
        return match decode_field(&s.fields[0], m, dec) {
            R::Ok(d) => R::Ok(D::Seq(vec![d])),
            r => r,
        };
    }
    dec_fields(&s.fields, m, s.shape == Shape::Tuple || s.as_array, s.allow_unknown).map(D::Seq)
}

/// Whether the field makes of null what it wants. What it makes of nothing is then left open.
fn reads_null(f: &FieldTy) -> bool {
    match &f.with {
        Some(c) => matches!(c.wire, Ty::Own(3)),
        None => matches!(f.ty, Ty::Own(3)),
    }
}

/// Whether it is a hand-written type, or transparently one.
pub fn inner_own(ty: &Ty) -> bool {
    match ty {
        Ty::Own(_) => true,
        Ty::Struct(s) => s.transparent && inner_own(wire(&s.fields[0])),
        _ => false,
    }
}

/// Decoding of the content of a variant that is not a bare unit.
fn dec_content(e: &EnumTy, i: usize, m: &M) -> R {
    let v = &e.variants[i];
    if v.newtype {
        return match dec_field(&v.fields[0], m) {
            R::Ok(d) => R::Ok(D::Var(i, vec![d])),
            r => r,
        };
    }
    if v.shape == Shape::Unit {
        return match m {
            M::Map(es) if es.is_empty() || v.allow_unknown => R::Ok(D::Var(i, vec![])),
            _ if is_null(m) => R::Free,
            _ => R::Err(ANY),
        };
    }
    dec_fields(&v.fields, m, v.shape == Shape::Tuple || v.as_array, v.allow_unknown).map(|f| D::Var(i, f))
}

fn dec_enum(e: &EnumTy, m: &M) -> R {
    let live = || e.variants.iter().enumerate().filter(|(_, v)| !v.skip);
    if let Some(tag) = &e.tag {
        let es = match m {
            M::Map(es) => es,
            _ => return R::Err(TYPE | UNKNOWN | MISSING),
        };
        let tags: Vec<&M> = es.iter().filter(|(k, _)| k == tag).map(|e| &e.1).collect();
        let rest = M::Map(es.iter().filter(|(k, _)| k != tag).cloned().collect());
        return match tags[..] {
            [] => match live().find(|(_, v)| v.missing) {
                Some((i, _)) => any_err(dec_content(e, i, &rest)),
                None => R::Err(ANY),
            },
            [t] if *t == UNDEF => R::Free,
            [t] => match live().find(|(_, v)| v.key == *t) {
                Some((i, _)) => any_err(dec_content(e, i, &rest)),
                None => R::Err(ANY),
            },
            _ => R::Free,
        };
    }
    for (i, v) in live().filter(|(_, v)| !v.embed) {
        if v.shape == Shape::Unit && !v.as_struct {
            if *m == *v.discr.as_ref().unwrap_or(&v.key) {
                return R::Ok(D::Var(i, vec![]));
            }
        } else if let M::Map(es) = m {
            if es.len() == 1 && es[0].0 == v.key {
                return any_err(dec_content(e, i, &es[0].1));
            }
        }
    }
    for (i, v) in live().filter(|(_, v)| v.embed) {
        let r = if is_null(m) && matches!(default(wire(&v.fields[0])), R::Ok(_)) {
            R::Free
        } else {
            dec_field(&v.fields[0], m)
        };
        match r {
            R::Ok(d) => return R::Ok(D::Var(i, vec![d])),
            R::Free => return R::Free,
            R::Err(_) => {}
        }
    }
    R::Err(ANY)
}

fn any_err(r: R) -> R {
    match r {
        R::Err(_) => R::Err(ANY),
        r => r,
    }
}

/// The value that decoding the encoding of `d` yields: skipped fields at their default. `None` if
/// `d` holds a skipped variant, or one whose encoding belongs to another variant.
pub fn round_trip(ty: &Ty, d: &D) -> Option<D> {
    let fields = |fs: &[FieldTy], v: &[D], array: bool| -> Option<Vec<D>> {
        fs.iter()
            .zip(v)
            .map(|(f, d)| {
                let got = |r| match r {
                    R::Ok(d) => Some(d),
                    _ => None,
                };
                if f.skip {
                    Some(std_default(&f.ty))
                } else if !array && left_out(f, d) {
                    if reads_null(f) {
                        return None;
                    }
                    got(dec_field(f, &NULL))
                } else if let Some(c) = &f.with {
                    got((c.dec)(&(c.enc)(d)))
                } else {
                    round_trip(&f.ty, d)
                }
            })
            .collect()
    };
    Some(match (ty, d) {
        (Ty::Struct(s), D::Seq(v)) => D::Seq(fields(&s.fields, v, s.shape == Shape::Tuple || s.as_array)?),
        (Ty::Enum(e), D::Var(i, v)) => {
            let var = &e.variants[*i];
            if var.skip || e.untagged || (var.embed && e.overlap) {
                return None;
            }
            if let (true, Some(tag), M::Map(es)) = (var.missing, &e.tag, enc_variant(e, *i, v)) {
                // The content could be taken for another variant's.
                if es.iter().any(|(k, _)| k == tag) {
                    return None;
                }
            }
            D::Var(*i, fields(&var.fields, v, var.shape == Shape::Tuple || var.as_array)?)
        }
        (Ty::Seq(t) | Ty::Arr(t, _) | Ty::Set(t, _), D::Seq(v)) => {
            D::Seq(v.iter().map(|d| round_trip(t, d)).collect::<Option<_>>()?)
        }
        (Ty::Tuple(ts), D::Seq(v)) => D::Seq(ts.iter().zip(v).map(|(t, d)| round_trip(t, d)).collect::<Option<_>>()?),
        (Ty::Opt(t), D::Some(d)) => D::Some(Box::new(round_trip(t, d)?)),
        (Ty::Rec(t), d) => round_trip(&unfold(*t), d)?,
        (Ty::Map(k, v), D::Map(m)) => {
            D::Map(m.iter().map(|(a, b)| Some((round_trip(k, a)?, round_trip(v, b)?))).collect::<Option<_>>()?)
        }
        _ => d.clone(),
    })
}
